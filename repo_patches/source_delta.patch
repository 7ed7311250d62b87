From 83c5d1d4b7f69b50f8dc26b1a869e3a61801b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:33 +0000
Subject: [PATCH 01/48] fix: do not expose a sender's transaction ID to other
 devices and users

The v2 timeline event of the sending device carries unsigned.transaction_id.
It was stored verbatim, so that every user in the room (and the sender's other
devices) received it. Strip it before storing: it is added back on the way out
for the device that sent the event.
---
 sync2/handler2/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 7b6ecf5..60d19f1 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -275,6 +275,9 @@ func (h *Handler) Accumulate(ctx context.Context, userID, deviceID, roomID strin
 		if txnID := parsed.Get("unsigned.transaction_id"); txnID.Exists() {
 			eventIDsWithTxns = append(eventIDsWithTxns, eventID)
 			eventIDToTxnID[eventID] = txnID.Str
+			// The stored event is reused for every user in the room, but only the sending
+			// device may see the transaction ID: it is added back on the way out.
+			timeline.Events[i], _ = sjson.DeleteBytes(timeline.Events[i], "unsigned.transaction_id")
 			continue
 		}
 
-- 
2.43.0


From d24814b640bdaf4f62b100a25c9032115a5fa570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:22 +0000
Subject: [PATCH 02/48] fix: never put a room the user has left back into a
 list

A connection remembers rooms which have been left. When a list is added or its
filters or sort order change, the list is rebuilt from these rooms without
checking if the user is still in them, which exposes the room's current state.
---
 sync3/lists.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sync3/lists.go b/sync3/lists.go
index 823637b..281bf50 100644
--- a/sync3/lists.go
+++ b/sync3/lists.go
@@ -233,11 +233,12 @@ func (s *InternalRequestLists) AssignList(ctx context.Context, listKey string, f
 			return s.lists[listKey], false
 		}
 	}
-	roomIDs := make([]string, len(s.allRooms))
-	i := 0
-	for roomID := range s.allRooms {
-		roomIDs[i] = roomID
-		i++
+	roomIDs := make([]string, 0, len(s.allRooms))
+	for roomID, room := range s.allRooms {
+		if room.HasLeft {
+			continue // we remember rooms which have been left, but they never belong in a list
+		}
+		roomIDs = append(roomIDs, roomID)
 	}
 
 	roomList := NewFilteredSortableRooms(s, listKey, roomIDs, filters)
-- 
2.43.0


From 20321bdf4f9c6a102f157c10edf29c29cecf3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:22 +0000
Subject: [PATCH 03/48] fix: drop a room from live lists when the user leaves
 or is banned, restore it on rejoin

Leaving a room on your own accord or being banned left the room in the
connection's lists, and a room which had been left was never marked as rejoined
so it never came back. A kick was also sent down the timeline twice.
---
 sync3/caches/user.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index fa21cfa..7fa0980 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -594,11 +594,17 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 	// add this to our tracked timelines if we have one
 	urd := c.LoadRoomData(eventData.RoomID)
 	// reset the IsInvite field when the user actually joins/rejects the invite
-	if urd.IsInvite && eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
-		urd.IsInvite = eventData.Content.Get("membership").Str == "invite"
-		if !urd.IsInvite {
-			urd.HighlightCount = 0
+	if eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
+		membership := eventData.Content.Get("membership").Str
+		if urd.IsInvite {
+			urd.IsInvite = membership == "invite"
+			if !urd.IsInvite {
+				urd.HighlightCount = 0
+			}
 		}
+		// keep track of whether the user is in this room, so it is dropped from lists when
+		// they leave (or are banned) and comes back when they rejoin.
+		urd.HasLeft = membership == "leave" || membership == "ban"
 	}
 	if eventData.EventType == "m.space.child" && eventData.StateKey != nil {
 		// the children for a space we are a part of have changed. Find the room that was affected and update our cache value.
@@ -650,6 +656,8 @@ func (c *UserCache) OnInvite(ctx context.Context, roomID string, inviteStateEven
 func (c *UserCache) OnLeftRoom(ctx context.Context, roomID string, leaveEvent json.RawMessage) {
 	urd := c.LoadRoomData(roomID)
 	wasInvite := urd.IsInvite
+	// if the leave event has been seen in the timeline already then the client knows about it
+	wasLeft := urd.HasLeft
 	urd.IsInvite = false
 	urd.HasLeft = true
 	urd.Invite = nil
@@ -688,7 +696,7 @@ func (c *UserCache) OnLeftRoom(ctx context.Context, roomID string, leaveEvent js
 			Sender:    sender,
 			// if this is an invite rejection/a kick we need to make sure we tell the client, and not
 			// skip it because of the lack of a NID (this event may not be in the events table)
-			AlwaysProcess: wasInvite || isKick,
+			AlwaysProcess: (wasInvite || isKick) && !wasLeft,
 		},
 	}
 	c.emitOnRoomUpdate(ctx, up)
-- 
2.43.0


From 7b5ea30beecb1ee8271a50e80ce668278590fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:34 +0000
Subject: [PATCH 04/48] fix: removing the last room of a list with several
 windows panicked

Deletions are treated as moves to the end of the list. When the room is already
at the end the move was computed backwards from an index which no longer
exists, which either panicked or emitted a bogus INSERT. Nothing shifts in this
case, so just DELETE the room if it was visible.
---
 sync3/ops.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sync3/ops.go b/sync3/ops.go
index 9f05119..9c72d29 100644
--- a/sync3/ops.go
+++ b/sync3/ops.go
@@ -57,13 +57,16 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 	case ListOpDel:
 		list.Remove(roomID)
 		// no need to resort here, everything is in the right order already and just needs a shift
-		// there will be no toIndex, set it to the end of the array
-		toIndex = int(list.Len()) - 1
-		if toIndex == -1 {
-			// we are removing the last element of the list
-			ops = append(ops, reqList.WriteDeleteOp(0))
+		if fromIndex == int(list.Len()) {
+			// we are removing the last element of the list so nothing shifts, just tell the client it
+			// is gone if they could see it.
+			if wasInsideRange {
+				ops = append(ops, reqList.WriteDeleteOp(fromIndex))
+			}
 			return
 		}
+		// there will be no toIndex, set it to the end of the array
+		toIndex = int(list.Len()) - 1
 	case ListOpChange:
 		// this should only move exactly 1 room at most as this is called for every single update
 		if err := list.Sort(reqList.Sort); err != nil {
-- 
2.43.0


From 02cb26efa0f559c2e9980583fc415e7553653b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:51 +0000
Subject: [PATCH 05/48] fix: changing the window of a list to or from a single
 room was ignored

A range of one element was treated as empty, so the client was not sent the
room (or was not told it was removed). Also do not make up inverted ranges for
adjacent windows.
---
 sync3/range.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sync3/range.go b/sync3/range.go
index d4823d4..7654f66 100644
--- a/sync3/range.go
+++ b/sync3/range.go
@@ -286,8 +286,10 @@ func (r SliceRanges) SliceInto(slice Subslicer) []Subslicer {
 // is an open not a close. We don't care if these points are old or new, as that just determines whether
 // they were added or removed, it doesn't change the range logic.
 func createRange(point, lastPoint *pointInfo, lastMergedRange *[2]int64) *[2]int64 {
-	if point.x <= lastPoint.x {
-		// don't make 0-length ranges which would be possible in say `[0,20] -> [0,20]`
+	isSingleElement := lastPoint.isOpen && !point.isOpen && point.isOldRange == lastPoint.isOldRange
+	if point.x <= lastPoint.x && !isSingleElement {
+		// don't make 0-length ranges which would be possible in say `[0,20] -> [0,20]`, but do
+		// keep ranges which consist of just one element e.g [5,5]
 		return nil
 	}
 
@@ -305,17 +307,17 @@ func createRange(point, lastPoint *pointInfo, lastMergedRange *[2]int64) *[2]int
 		start += 1
 	}
 
+	// assume 'point' is a close so needs to include itself
+	end := point.x
 	if point.isOpen {
 		// do -1 if 'point' is an open as it will make its own range and we don't want dupes
-		return &[2]int64{
-			start, point.x - 1,
-		}
-	} else {
-		// 'point' is a close so needs to include itself
-		return &[2]int64{
-			start, point.x,
-		}
+		end--
+	}
+	if start > end {
+		// there is nothing in between adjacent ranges e.g [0,4],[5,9] -> [0,9]
+		return nil
 	}
+	return &[2]int64{start, end}
 }
 
 func sortPoints(points []pointInfo) {
-- 
2.43.0


From 4b270a6270f2d1093ef14938147dbda297dcf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:27 +0000
Subject: [PATCH 06/48] fix: send the data of a room which enters the window
 because another room was removed

When a room is removed from a list, the room which shifts into the last position
of the window was INSERTed without its data being sent to the client.
---
 sync3/ops.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/ops.go b/sync3/ops.go
index 9c72d29..adeacc8 100644
--- a/sync3/ops.go
+++ b/sync3/ops.go
@@ -114,8 +114,8 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 
 		addedSub := false
 		// if a different room is being inserted or the room wasn't previously inside a range, send
-		// the entire room data
-		if !wasUpdatedRoomInserted || !wasInsideRange {
+		// the entire room data. When deleting, the room which shifts in is always a different room.
+		if !wasUpdatedRoomInserted || !wasInsideRange || listOp == ListOpDel {
 			subs = append(subs, toRoomID)
 			addedSub = true
 		}
-- 
2.43.0


From 55ffebf1afe605faab702e48b91c11118c12ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:25 +0000
Subject: [PATCH 07/48] fix: changing the filters of a slow_get_all_rooms list
 was ignored

---
 sync3/handler/connstate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index c71a86d..39a7507 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -274,6 +274,10 @@ func (s *ConnState) onIncomingListRequest(ctx context.Context, builder *RoomsBui
 	if nextReqList.ShouldGetAllRooms() {
 		if overwritten || prevReqList.FiltersChanged(nextReqList) {
 			// this is either a new list or the filters changed, so we need to splat all the rooms to the client.
+			if !overwritten {
+				// the rooms may have completely changed, so re-create the list.
+				roomList, _ = s.lists.AssignList(ctx, listKey, nextReqList.Filters, nextReqList.Sort, sync3.Overwrite)
+			}
 			subID := builder.AddSubscription(nextReqList.RoomSubscription)
 			allRoomIDs := roomList.RoomIDs()
 			builder.AddRoomsToSubscription(ctx, subID, allRoomIDs)
-- 
2.43.0


From 0063bb10b6376209c4e37a0ab57cf168998a9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:56 +0000
Subject: [PATCH 08/48] fix: retire the invite of a user who is banned while
 invited

---
 sync2/poller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index e3e4839..0210a6a 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -897,10 +897,12 @@ func (p *poller) parseRoomsResponse(ctx context.Context, res *SyncResponse) erro
 		}
 		// Pass the leave event directly to OnLeftRoom. We need to do this _in addition_ to calling Accumulate to handle
 		// the case where a user rejects an invite (there will be no room state, but the user still expects to see the leave event).
+		// Being banned whilst invited has to retire the invite as well.
 		var leaveEvent json.RawMessage
 		for _, ev := range roomData.Timeline.Events {
 			leaveEv := gjson.ParseBytes(ev)
-			if leaveEv.Get("content.membership").Str == "leave" && leaveEv.Get("state_key").Str == p.userID {
+			membership := leaveEv.Get("content.membership").Str
+			if (membership == "leave" || membership == "ban") && leaveEv.Get("state_key").Str == p.userID {
 				leaveEvent = ev
 				break
 			}
-- 
2.43.0


From 0c7076e7778a55d56944a25652d4e2b4cee2948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:56 +0000
Subject: [PATCH 09/48] fix: do not reveal who is typing or read receipts of a
 room the user is only invited to

---
 sync3/extensions/extensions.go  |  3 +++
 sync3/extensions/receipts.go    |  3 +++
 sync3/extensions/typing.go      |  7 +++++++
 sync3/handler/connstate.go      |  1 +
 sync3/handler/connstate_live.go |  1 +
 sync3/response.go               | 11 +++++++++++
 6 files changed, 26 insertions(+)

diff --git a/sync3/extensions/extensions.go b/sync3/extensions/extensions.go
index 4eebd4c..5b19d1c 100644
--- a/sync3/extensions/extensions.go
+++ b/sync3/extensions/extensions.go
@@ -287,6 +287,9 @@ type Context struct {
 	// oldest to newest, as determined by the core sliding sync protocol.
 	// TODO: can the timelines be "gappy" like a v2 sync timeline?
 	RoomIDToTimeline map[string][]string
+	// InvitedRoomIDs is the subset of the rooms in RoomIDToTimeline which the user is only
+	// invited to. Room data other than the invite state must not be returned for these.
+	InvitedRoomIDs map[string]struct{}
 	// IsInitial is true if this sync is requesting a snapshot of current client state
 	// (pos = 0, "initial sync") and false otherwise (pos > 0, "incremental sync").
 	IsInitial bool
diff --git a/sync3/extensions/receipts.go b/sync3/extensions/receipts.go
index cf5be0d..aa51429 100644
--- a/sync3/extensions/receipts.go
+++ b/sync3/extensions/receipts.go
@@ -89,6 +89,9 @@ func (r *ReceiptsRequest) ProcessInitial(ctx context.Context, res *Response, ext
 	interestedRoomIDs := make([]string, 0, len(extCtx.RoomIDToTimeline))
 	otherReceipts := make(map[string][]internal.Receipt)
 	for roomID, timeline := range extCtx.RoomIDToTimeline {
+		if _, invited := extCtx.InvitedRoomIDs[roomID]; invited {
+			continue
+		}
 		if !r.RoomInScope(roomID, extCtx) {
 			continue
 		}
diff --git a/sync3/extensions/typing.go b/sync3/extensions/typing.go
index 286f277..bfe0f9e 100644
--- a/sync3/extensions/typing.go
+++ b/sync3/extensions/typing.go
@@ -41,6 +41,9 @@ func (r *TypingRequest) AppendLive(ctx context.Context, res *Response, extCtx Co
 		if _, exists := extCtx.RoomIDToTimeline[update.RoomID()]; !exists {
 			return
 		}
+		if _, invited := extCtx.InvitedRoomIDs[update.RoomID()]; invited {
+			return
+		}
 		ev := update.GlobalRoomMetadata().TypingEvent
 		if ev == nil {
 			return
@@ -79,6 +82,10 @@ func (r *TypingRequest) ProcessInitial(ctx context.Context, res *Response, extCt
 			continue
 		}
 
+		if _, invited := extCtx.InvitedRoomIDs[roomID]; invited {
+			continue
+		}
+
 		if !r.RoomInScope(roomID, extCtx) {
 			continue
 		}
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 39a7507..d0e6cf5 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -230,6 +230,7 @@ func (s *ConnState) onIncomingRequest(reqCtx context.Context, req *sync3.Request
 		UserID:             s.userID,
 		DeviceID:           s.deviceID,
 		RoomIDToTimeline:   response.RoomIDsToTimelineEventIDs(),
+		InvitedRoomIDs:     response.InvitedRoomIDs(),
 		IsInitial:          isInitial,
 		RoomIDsToLists:     s.lists.ListsByVisibleRoomIDs(s.muxedReq.Lists),
 		AllSubscribedRooms: internal.Keys(s.roomSubscriptions),
diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 70da78d..f5881b0 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -122,6 +122,7 @@ func (s *connStateLive) processUpdate(ctx context.Context, update caches.Update,
 	s.extensionsHandler.HandleLiveUpdate(ctx, update, ex, &response.Extensions, extensions.Context{
 		IsInitial:          false,
 		RoomIDToTimeline:   response.RoomIDsToTimelineEventIDs(),
+		InvitedRoomIDs:     response.InvitedRoomIDs(),
 		UserID:             s.userID,
 		DeviceID:           s.deviceID,
 		RoomIDsToLists:     roomIDsToLists,
diff --git a/sync3/response.go b/sync3/response.go
index 8cf8a1d..05072df 100644
--- a/sync3/response.go
+++ b/sync3/response.go
@@ -57,6 +57,17 @@ func (r *Response) RoomIDsToTimelineEventIDs() map[string][]string {
 	return includedRoomIDs
 }
 
+// InvitedRoomIDs returns the set of rooms in this response which the user is only invited to.
+func (r *Response) InvitedRoomIDs() map[string]struct{} {
+	invited := make(map[string]struct{})
+	for roomID := range r.Rooms {
+		if len(r.Rooms[roomID].InviteState) > 0 {
+			invited[roomID] = struct{}{}
+		}
+	}
+	return invited
+}
+
 // Custom unmarshal so we can dynamically create the right ResponseOp for Ops
 func (r *Response) UnmarshalJSON(b []byte) error {
 	temporary := struct {
-- 
2.43.0


From ffb928da9350c86a20cf46ddf7f81636cf31540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:56 +0000
Subject: [PATCH 10/48] fix: an event held back for its transaction ID undid
 unread counts sent in the meantime

---
 sync3/caches/user.go       | 10 ++++++++++
 sync3/handler/connstate.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 7fa0980..a6f7d7a 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -414,6 +414,16 @@ func (c *UserCache) newRoomUpdate(ctx context.Context, roomID string) RoomUpdate
 	}
 }
 
+// RefreshRoomEventUpdate returns a copy of this update with a new snapshot of the user cache / global
+// cache data, for use when the update was held back: other updates for this room may have been sent
+// to the connection in the meantime (e.g unread counts), which must not be undone by an older snapshot.
+func (c *UserCache) RefreshRoomEventUpdate(ctx context.Context, up *RoomEventUpdate) *RoomEventUpdate {
+	return &RoomEventUpdate{
+		RoomUpdate: c.newRoomUpdate(ctx, up.RoomID()),
+		EventData:  up.EventData,
+	}
+}
+
 func (c *UserCache) Invites() map[string]UserRoomData {
 	c.roomToDataMu.Lock()
 	defer c.roomToDataMu.Unlock()
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index d0e6cf5..64821b3 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -86,6 +86,9 @@ func NewConnState(
 		userID,
 		maxTransactionIDDelay,
 		func(delayed bool, update caches.Update) {
+			if eventUpdate, ok := update.(*caches.RoomEventUpdate); ok && delayed {
+				update = cs.userCache.RefreshRoomEventUpdate(context.Background(), eventUpdate)
+			}
 			cs.live.onUpdate(update)
 		},
 	)
-- 
2.43.0


From 095cf59da64bc516a5c50ab7ed27cc0e27eef04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:43 +0000
Subject: [PATCH 11/48] fix: a lazily loaded typing member reset the unread
 counts of its room

---
 sync3/handler/connstate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 64821b3..17da7db 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -538,7 +538,12 @@ func (s *ConnState) lazyLoadTypingMembers(ctx context.Context, response *sync3.R
 		}
 		room, ok := response.Rooms[roomID]
 		if !ok {
-			room = sync3.Room{}
+			// the counts are always sent to the client, so they need to be set
+			userRoomData := s.userCache.LoadRoomData(roomID)
+			room = sync3.Room{
+				NotificationCount: int64(userRoomData.NotificationCount),
+				HighlightCount:    int64(userRoomData.HighlightCount),
+			}
 		}
 		typingUsers := gjson.GetBytes(typingEvent, "content.user_ids")
 		for _, typingUserID := range typingUsers.Array() {
-- 
2.43.0


From 9f513c76e8b3d3e93d74d338f959faaf67bc14d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:43 +0000
Subject: [PATCH 12/48] fix: account data which failed to be stored was taken
 for a duplicate when retried

---
 sync2/handler2/handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 60d19f1..3b06bef 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -491,6 +491,7 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 	// duplicate suppression for multiple devices on the same account.
 	// We suppress by remembering the last bytes for a given account data, and if they match we ignore.
 	dedupedEvents := make([]json.RawMessage, 0, len(events))
+	newHashes := make(map[string]uint64, len(events))
 	for i := range events {
 		evType := gjson.GetBytes(events[i], "type").Str
 		key := fmt.Sprintf("%s|%s|%s", userID, roomID, evType)
@@ -503,7 +504,7 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 			}
 		}
 		dedupedEvents = append(dedupedEvents, events[i])
-		h.accountDataMap.Store(key, thisHash)
+		newHashes[key] = thisHash
 	}
 	if len(dedupedEvents) == 0 {
 		return nil
@@ -515,6 +516,10 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 		sentry.CaptureException(err)
 		return err
 	}
+	// only remember these once they have been stored, else the poller's retry would be suppressed.
+	for key, hash := range newHashes {
+		h.accountDataMap.Store(key, hash)
+	}
 	var types []string
 	for _, d := range data {
 		types = append(types, d.Type)
-- 
2.43.0


From 3dcef1018a809e913e7a9d087261a1e31dfb7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:56 +0000
Subject: [PATCH 13/48] fix: a room learnt of through a receipt or unread count
 was sent without its state

---
 sync3/handler/connstate_live.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index f5881b0..da32f44 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -158,6 +158,13 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				Msg("ignoring event update")
 			return false
 		}
+	} else if roomUpdate != nil && s.lists.ReadOnlyRoom(roomUpdate.RoomID()) == nil {
+		// This connection hasn't processed the events of this room yet: they are still on their way. If we
+		// added the room now, its snapshot would be taken at a position which predates the room, so it would
+		// have no state. Invites are different as they have no events.
+		if _, isInvite := up.(*caches.InviteUpdate); !isInvite {
+			return false
+		}
 	}
 
 	// for initial rooms e.g a room comes into the window or a subscription now exists
-- 
2.43.0


From d7992d4acc172538d2e287c75c3dcb8c18806748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:18 +0000
Subject: [PATCH 14/48] fix: members whose first known event changes only their
 profile were not counted as joined

---
 sync3/caches/global.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sync3/caches/global.go b/sync3/caches/global.go
index e448c83..49c9474 100644
--- a/sync3/caches/global.go
+++ b/sync3/caches/global.go
@@ -338,9 +338,11 @@ func (c *GlobalCache) OnNewEvent(
 		if ed.StateKey != nil {
 			membership := ed.Content.Get("membership").Str
 			eventJSON := gjson.ParseBytes(ed.Event)
+			// Always update the counts: the first event we see for a member can be one which doesn't change
+			// their membership e.g they changed their display name before we knew about this room.
+			metadata.JoinCount = ed.JoinCount
+			metadata.InviteCount = ed.InviteCount
 			if internal.IsMembershipChange(eventJSON) {
-				metadata.JoinCount = ed.JoinCount
-				metadata.InviteCount = ed.InviteCount
 				if membership == "leave" || membership == "ban" {
 					// remove this user as a hero
 					metadata.RemoveHero(*ed.StateKey)
-- 
2.43.0


From ad680a5b53266f6a2a1c3bc875e76eabc19dc29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:18 +0000
Subject: [PATCH 15/48] fix: invited counts were wrong after a restart because
 pending invites were forgotten

---
 state/storage.go         | 33 +++++++++++++++++++++++++++++++--
 sync3/dispatcher.go      |  8 ++++++++
 sync3/handler/handler.go |  1 +
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/state/storage.go b/state/storage.go
index 0d0faa7..03120e4 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -32,8 +32,9 @@ const MaxPostgresParameters = 65535
 
 // StartupSnapshot represents a snapshot of startup data for the sliding sync HTTP API instances
 type StartupSnapshot struct {
-	GlobalMetadata   map[string]internal.RoomMetadata // room_id -> metadata
-	AllJoinedMembers map[string][]string              // room_id -> [user_id]
+	GlobalMetadata    map[string]internal.RoomMetadata // room_id -> metadata
+	AllJoinedMembers  map[string][]string              // room_id -> [user_id]
+	AllInvitedMembers map[string][]string              // room_id -> [user_id]
 }
 
 type LatestEvents struct {
@@ -192,6 +193,12 @@ func (s *Storage) GlobalSnapshot() (ss StartupSnapshot, err error) {
 			sentry.CaptureException(err)
 			return err
 		}
+		ss.AllInvitedMembers, err = s.allInvitedMembers(txn, tempTableName)
+		if err != nil {
+			err = fmt.Errorf("GlobalSnapshot: failed to call allInvitedMembers: %w", err)
+			sentry.CaptureException(err)
+			return err
+		}
 		err = s.MetadataForAllRooms(txn, tempTableName, metadata)
 		if err != nil {
 			err = fmt.Errorf("GlobalSnapshot: failed to call MetadataForAllRooms: %w", err)
@@ -991,6 +998,28 @@ func (s *Storage) RoomMembershipDelta(roomID string, from, to int64, limit int)
 	return
 }
 
+// allInvitedMembers returns the users who are currently invited to each room. Requires a prepared snapshot
+// in order to be called.
+func (s *Storage) allInvitedMembers(txn *sqlx.Tx, tempTableName string) (invitedMembers map[string][]string, err error) {
+	rows, err := txn.Query(
+		`SELECT room_id, state_key FROM ` + tempTableName + ` INNER JOIN syncv3_events
+		on membership_nid = event_nid WHERE membership='invite' OR membership='_invite' ORDER BY event_nid ASC`,
+	)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	invitedMembers = make(map[string][]string)
+	var roomID, userID string
+	for rows.Next() {
+		if err := rows.Scan(&roomID, &userID); err != nil {
+			return nil, err
+		}
+		invitedMembers[roomID] = append(invitedMembers[roomID], userID)
+	}
+	return invitedMembers, rows.Err()
+}
+
 // Extract all rooms with joined members, and include the joined user list. Requires a prepared snapshot in order to be called.
 // Populates the join/invite count and heroes for the returned metadata.
 func (s *Storage) AllJoinedMembers(txn *sqlx.Tx, tempTableName string) (joinedMembers map[string][]string, metadata map[string]internal.RoomMetadata, err error) {
diff --git a/sync3/dispatcher.go b/sync3/dispatcher.go
index a7bb24b..936f916 100644
--- a/sync3/dispatcher.go
+++ b/sync3/dispatcher.go
@@ -55,6 +55,14 @@ func (d *Dispatcher) Startup(roomToJoinedUsers map[string][]string) error {
 	return nil
 }
 
+// Load invited members into the dispatcher, so that invite counts are right after a restart.
+// MUST BE CALLED BEFORE V2 POLL LOOPS START.
+func (d *Dispatcher) StartupInvites(roomToInvitedUsers map[string][]string) {
+	for roomID, userIDs := range roomToInvitedUsers {
+		d.jrt.UsersInvitedToRoom(userIDs, roomID)
+	}
+}
+
 func (d *Dispatcher) Unregister(userID string) {
 	d.userToReceiverMu.Lock()
 	defer d.userToReceiverMu.Unlock()
diff --git a/sync3/handler/handler.go b/sync3/handler/handler.go
index 9ab0db7..8834cf7 100644
--- a/sync3/handler/handler.go
+++ b/sync3/handler/handler.go
@@ -109,6 +109,7 @@ func (h *SyncLiveHandler) Startup(storeSnapshot *state.StartupSnapshot) error {
 	if err := h.Dispatcher.Startup(storeSnapshot.AllJoinedMembers); err != nil {
 		return fmt.Errorf("failed to load sync3.Dispatcher: %s", err)
 	}
+	h.Dispatcher.StartupInvites(storeSnapshot.AllInvitedMembers)
 	h.Dispatcher.Register(context.Background(), sync3.DispatcherAllUsers, h.GlobalCache)
 	if err := h.GlobalCache.Startup(storeSnapshot.GlobalMetadata); err != nil {
 		return fmt.Errorf("failed to populate global cache: %s", err)
-- 
2.43.0


From a39c82b66c825b0cbc4f16ab3ca1c8b76f80120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:47 +0000
Subject: [PATCH 16/48] fix: updates which arrived whilst a user's cache was
 being loaded were lost

The cache is built from several database reads and then stored. An unread count, invite, leave, receipt or
account data update processed after its table had been read but before the cache was stored found no cache and
was dropped, so the cache stayed stale until the next restart. Load the cache under a per-user lock and have
updates wait for it.
---
 sync3/handler/handler.go | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/sync3/handler/handler.go b/sync3/handler/handler.go
index 8834cf7..60f1968 100644
--- a/sync3/handler/handler.go
+++ b/sync3/handler/handler.go
@@ -53,8 +53,9 @@ type SyncLiveHandler struct {
 	// inserts are done by v2 poll loops, selects are done by v3 request threads
 	// but the v3 requests touch non-overlapping keys, which is a good use case for sync.Map
 	// > (2) when multiple goroutines read, write, and overwrite entries for disjoint sets of keys.
-	userCaches *sync.Map // map[user_id]*UserCache
-	Dispatcher *sync3.Dispatcher
+	userCaches   *sync.Map // map[user_id]*UserCache
+	userCacheMus sync.Map  // map[user_id]*sync.Mutex, held whilst the user's cache is being loaded
+	Dispatcher   *sync3.Dispatcher
 
 	GlobalCache            *caches.GlobalCache
 	maxPendingEventUpdates int
@@ -512,6 +513,23 @@ func (h *SyncLiveHandler) CacheForUser(userID string) *caches.UserCache {
 	return nil
 }
 
+func (h *SyncLiveHandler) lockUserCache(userID string) (unlock func()) {
+	mu, _ := h.userCacheMus.LoadOrStore(userID, &sync.Mutex{})
+	mu.(*sync.Mutex).Lock()
+	return mu.(*sync.Mutex).Unlock
+}
+
+// loadedUserCache returns the cache for this user if there is one. If it is being loaded right now, waits for it.
+func (h *SyncLiveHandler) loadedUserCache(userID string) (*caches.UserCache, bool) {
+	unlock := h.lockUserCache(userID)
+	defer unlock()
+	c, ok := h.userCaches.Load(userID)
+	if !ok {
+		return nil, false
+	}
+	return c.(*caches.UserCache), true
+}
+
 // userCache fetches an existing caches.UserCache for this user if one exists. If not,
 // it
 //   - creates a blank caches.UserCache struct,
@@ -524,6 +542,10 @@ func (h *SyncLiveHandler) CacheForUser(userID string) *caches.UserCache {
 //
 //	UserCache holds a reference to the storage layer.
 func (h *SyncLiveHandler) userCache(userID string) (*caches.UserCache, error) {
+	// Updates which arrive whilst we are loading need to wait until we are done. Otherwise an update which is made
+	// after we have read the data from the database but before we have stored the cache would be lost for good.
+	unlock := h.lockUserCache(userID)
+	defer unlock()
 	// bail if we already have a cache
 	c, ok := h.userCaches.Load(userID)
 	if ok {
@@ -696,11 +718,11 @@ func (h *SyncLiveHandler) Initialise(p *pubsub.V2Initialise) {
 func (h *SyncLiveHandler) OnUnreadCounts(p *pubsub.V2UnreadCounts) {
 	ctx, task := internal.StartTask(context.Background(), "OnUnreadCounts")
 	defer task.End()
-	userCache, ok := h.userCaches.Load(p.UserID)
+	userCache, ok := h.loadedUserCache(p.UserID)
 	if !ok {
 		return
 	}
-	userCache.(*caches.UserCache).OnUnreadCounts(ctx, p.RoomID, p.HighlightCount, p.NotificationCount)
+	userCache.OnUnreadCounts(ctx, p.RoomID, p.HighlightCount, p.NotificationCount)
 }
 
 // push device data updates on waiting conns (otk counts, device list changes)
@@ -731,7 +753,7 @@ func (h *SyncLiveHandler) OnDeviceMessages(p *pubsub.V2DeviceMessages) {
 func (h *SyncLiveHandler) OnInvite(p *pubsub.V2InviteRoom) {
 	ctx, task := internal.StartTask(context.Background(), "OnInvite")
 	defer task.End()
-	userCache, ok := h.userCaches.Load(p.UserID)
+	userCache, ok := h.loadedUserCache(p.UserID)
 	if !ok {
 		return
 	}
@@ -741,17 +763,17 @@ func (h *SyncLiveHandler) OnInvite(p *pubsub.V2InviteRoom) {
 		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
 		return
 	}
-	userCache.(*caches.UserCache).OnInvite(ctx, p.RoomID, inviteState)
+	userCache.OnInvite(ctx, p.RoomID, inviteState)
 }
 
 func (h *SyncLiveHandler) OnLeftRoom(p *pubsub.V2LeaveRoom) {
 	ctx, task := internal.StartTask(context.Background(), "OnLeftRoom")
 	defer task.End()
-	userCache, ok := h.userCaches.Load(p.UserID)
+	userCache, ok := h.loadedUserCache(p.UserID)
 	if !ok {
 		return
 	}
-	userCache.(*caches.UserCache).OnLeftRoom(ctx, p.RoomID, p.LeaveEvent)
+	userCache.OnLeftRoom(ctx, p.RoomID, p.LeaveEvent)
 }
 
 func (h *SyncLiveHandler) OnReceipt(p *pubsub.V2Receipt) {
@@ -769,12 +791,12 @@ func (h *SyncLiveHandler) OnReceipt(p *pubsub.V2Receipt) {
 	}
 	// always send private receipts, directly to the connected user cache if one exists
 	for userID, privateReceipts := range userToPrivateReceipts {
-		userCache, ok := h.userCaches.Load(userID)
+		userCache, ok := h.loadedUserCache(userID)
 		if !ok {
 			continue
 		}
 		for _, pr := range privateReceipts {
-			userCache.(*caches.UserCache).OnReceipt(ctx, pr)
+			userCache.OnReceipt(ctx, pr)
 		}
 	}
 	if len(publicReceipts) == 0 {
@@ -801,7 +823,7 @@ func (h *SyncLiveHandler) OnTyping(p *pubsub.V2Typing) {
 func (h *SyncLiveHandler) OnAccountData(p *pubsub.V2AccountData) {
 	ctx, task := internal.StartTask(context.Background(), "OnAccountData")
 	defer task.End()
-	userCache, ok := h.userCaches.Load(p.UserID)
+	userCache, ok := h.loadedUserCache(p.UserID)
 	if !ok {
 		return
 	}
@@ -811,7 +833,7 @@ func (h *SyncLiveHandler) OnAccountData(p *pubsub.V2AccountData) {
 		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
 		return
 	}
-	userCache.(*caches.UserCache).OnAccountData(ctx, data)
+	userCache.OnAccountData(ctx, data)
 }
 
 func (h *SyncLiveHandler) OnExpiredToken(p *pubsub.V2ExpiredToken) {
-- 
2.43.0


From e6a14eaf8aba51c47838fd9bc00991b5ca7cc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:44 +0000
Subject: [PATCH 17/48] fix: requests hung for ever if the database failed
 whilst a poller was being started

EnsurePolling gave up without a reply when the device could not be looked up, so every request of that device
waited until the next restart. Retry the lookup if the database is unavailable and report an unknown device.
---
 sync2/handler2/handler.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 3b06bef..da1b17e 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -2,7 +2,9 @@ package handler2
 
 import (
 	"context"
+	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"hash/fnv"
 	"os"
@@ -29,6 +31,9 @@ var logger = zerolog.New(os.Stdout).With().Timestamp().Logger().Output(zerolog.C
 	TimeFormat: "15:04:05",
 })
 
+// how long to wait before looking up a device again, if it could not be looked up because of a database error.
+const ensurePollingRetryInterval = 3 * time.Second
+
 // Handler is responsible for starting v2 pollers at startup;
 // processing v2 data (as a sync2.V2DataReceiver) and publishing updates (pubsub.Payload to V2Listeners);
 // and receiving and processing EnsurePolling events.
@@ -576,21 +581,28 @@ func (h *Handler) EnsurePolling(p *pubsub.V3EnsurePolling) {
 		log.Info().Msg("EnsurePolling: preprocessing done")
 	}()
 	accessToken, since, err := h.v2Store.TokensTable.GetTokenAndSince(p.UserID, p.DeviceID, p.AccessTokenHash)
-	if err != nil {
-		log.Err(err).Msg("V3Sub: EnsurePolling unknown device")
-		sentry.CaptureException(err)
-		return
-	}
 	// don't block us from consuming more pubsub messages just because someone wants to sync
 	go func() {
-		// blocks until an initial sync is done
-		pid := sync2.PollerID{
-			UserID:   p.UserID,
-			DeviceID: p.DeviceID,
+		// There are requests waiting for our reply, so we can't just give up if the database is unavailable.
+		for err != nil && !errors.Is(err, sql.ErrNoRows) {
+			log.Err(err).Msg("V3Sub: EnsurePolling failed to look up device, retrying")
+			sentry.CaptureException(err)
+			time.Sleep(ensurePollingRetryInterval)
+			accessToken, since, err = h.v2Store.TokensTable.GetTokenAndSince(p.UserID, p.DeviceID, p.AccessTokenHash)
+		}
+		if err != nil {
+			log.Err(err).Msg("V3Sub: EnsurePolling unknown device")
+			sentry.CaptureException(err)
+		} else {
+			// blocks until an initial sync is done
+			pid := sync2.PollerID{
+				UserID:   p.UserID,
+				DeviceID: p.DeviceID,
+			}
+			_, err = h.pMap.EnsurePolling(
+				pid, accessToken, since, false, log,
+			)
 		}
-		_, err = h.pMap.EnsurePolling(
-			pid, accessToken, since, false, log,
-		)
 		if err != nil {
 			log.Err(err).Msg("Failed to start poller")
 		}
-- 
2.43.0


From 415c7465d9795aa108adb5b4392644f9bb24fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:40 +0000
Subject: [PATCH 18/48] fix: room account data was not sent for rooms which
 another room's update brought into view

---
 sync3/extensions/account_data.go | 35 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/sync3/extensions/account_data.go b/sync3/extensions/account_data.go
index a84d7f2..efc06a6 100644
--- a/sync3/extensions/account_data.go
+++ b/sync3/extensions/account_data.go
@@ -44,36 +44,39 @@ func accountEventsAsJSON(events []state.AccountData) []json.RawMessage {
 func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extCtx Context, up caches.Update) {
 	var globalMsgs []json.RawMessage
 	roomToMsgs := map[string][]json.RawMessage{}
+	loadedRooms := map[string]bool{}
 	switch update := up.(type) {
 	case *caches.AccountDataUpdate:
 		globalMsgs = accountEventsAsJSON(update.AccountData)
-	case *caches.RoomAccountDataUpdate:
-		if r.RoomInScope(update.RoomID(), extCtx) {
-			roomToMsgs[update.RoomID()] = accountEventsAsJSON(update.AccountData)
-		}
 	case caches.RoomUpdate:
-		if !r.RoomInScope(update.RoomID(), extCtx) {
-			return
-		}
-		// if this is a room update which is included in the response, send account data for this room
-		if _, exists := extCtx.RoomIDToTimeline[update.RoomID()]; exists {
+		// if there are rooms which are included in the response, send account data for those rooms. This isn't
+		// just the updated room, as the update may have brought other rooms into view.
+		for roomID := range extCtx.RoomIDToTimeline {
+			if !r.RoomInScope(roomID, extCtx) {
+				continue
+			}
 			// ..but only if we haven't before
-			if res.AccountData != nil && res.AccountData.loadedRooms[update.RoomID()] {
+			if res.AccountData != nil && res.AccountData.loadedRooms[roomID] {
 				// we've loaded this room before, don't do it again
 				// this can happen when we consume lots of items in the buffer. If many of them are room updates
 				// for the same room, we could send dupe room account data if we didn't do this check.
-				return
+				continue
 			}
-			roomAccountData, err := extCtx.Store.AccountDatas(extCtx.UserID, update.RoomID())
+			roomAccountData, err := extCtx.Store.AccountDatas(extCtx.UserID, roomID)
 			if err != nil {
-				logger.Err(err).Str("user", extCtx.UserID).Str("room", update.RoomID()).Msg("failed to fetch room account data")
+				logger.Err(err).Str("user", extCtx.UserID).Str("room", roomID).Msg("failed to fetch room account data")
 				internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
 			} else {
 				if len(roomAccountData) > 0 { // else we can end up with `null` not `[]`
-					roomToMsgs[update.RoomID()] = accountEventsAsJSON(roomAccountData)
+					roomToMsgs[roomID] = accountEventsAsJSON(roomAccountData)
+					loadedRooms[roomID] = true
 				}
 			}
 		}
+		roomAccountDataUpdate, ok := update.(*caches.RoomAccountDataUpdate)
+		if ok && !loadedRooms[update.RoomID()] && r.RoomInScope(update.RoomID(), extCtx) {
+			roomToMsgs[update.RoomID()] = accountEventsAsJSON(roomAccountDataUpdate.AccountData)
+		}
 	}
 	if len(globalMsgs) == 0 && len(roomToMsgs) == 0 {
 		return
@@ -87,7 +90,9 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 	res.AccountData.Global = append(res.AccountData.Global, globalMsgs...)
 	for roomID, roomAccountData := range roomToMsgs {
 		res.AccountData.Rooms[roomID] = append(res.AccountData.Rooms[roomID], roomAccountData...)
-		res.AccountData.loadedRooms[roomID] = true
+		if loadedRooms[roomID] {
+			res.AccountData.loadedRooms[roomID] = true
+		}
 	}
 }
 
-- 
2.43.0


From 00f02c0bc32522518e47fd8e71512f232a01c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:22 +0000
Subject: [PATCH 19/48] fix: events were sent twice if a snapshot overtook
 older updates still in the queue

---
 sync3/handler/connstate_live.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index da32f44..32f2202 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -235,8 +235,10 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				if roomEventUpdate.EventData.NID <= s.loadPositions[roomEventUpdate.RoomID()] {
 					// this update has been accounted for by the initial:true room snapshot
 					advancedPastEvent = true
+				} else {
+					// never move backwards, else events which the snapshot did include are sent again
+					s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 				}
-				s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 			}
 			// we only append to the timeline if we haven't already got this event. This can happen when:
 			// - 2 live events for a room mid-connection
-- 
2.43.0


From 211a0ec7a01de9c2c4a55aa3c5ff66261e0f0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:22 +0000
Subject: [PATCH 20/48] fix: do not reveal the state of a room to a user who
 rejects the invite to it

---
 sync3/caches/user.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index a6f7d7a..dea2284 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -603,9 +603,11 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 	// add this to our tracked timelines if we have one
 	urd := c.LoadRoomData(eventData.RoomID)
+	rejectedInvite := false
 	// reset the IsInvite field when the user actually joins/rejects the invite
 	if eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
 		membership := eventData.Content.Get("membership").Str
+		rejectedInvite = urd.IsInvite && (membership == "leave" || membership == "ban")
 		if urd.IsInvite {
 			urd.IsInvite = membership == "invite"
 			if !urd.IsInvite {
@@ -630,6 +632,15 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 		RoomUpdate: c.newRoomUpdate(ctx, eventData.RoomID),
 		EventData:  eventData,
 	}
+	if rejectedInvite {
+		// the user was never in this room: do NOT pull from the global cache. We don't want to leak
+		// additional data.
+		roomUpdate.RoomUpdate = &roomUpdateCache{
+			roomID:         eventData.RoomID,
+			globalRoomData: internal.NewRoomMetadata(eventData.RoomID),
+			userRoomData:   &urd,
+		}
+	}
 
 	c.emitOnRoomUpdate(ctx, roomUpdate)
 }
-- 
2.43.0


From f89ffe658656ec24f2df831d973ccdba5404c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:45 +0000
Subject: [PATCH 21/48] fix: do not reveal the state of a room whose invite is
 retracted whilst a connection starts

---
 sync3/handler/connstate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 17da7db..5a5fa74 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -578,6 +578,13 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 	// response to this call to assign new load positions for each room.
 	roomMetadatas := s.globalCache.LoadRooms(ctx, roomIDs...)
 	userRoomDatas := s.userCache.LoadRooms(roomIDs...)
+	for roomID, userRoomData := range userRoomDatas {
+		// If an invite in our lists was retracted or rejected in the meantime then the user was never in the room,
+		// so carry on with the invite as it was. The update which removes it from the lists is yet to be processed.
+		if roomListsMeta := s.lists.ReadOnlyRoom(roomID); userRoomData.HasLeft && roomListsMeta != nil && roomListsMeta.IsInvite && roomListsMeta.Invite != nil {
+			userRoomDatas[roomID] = roomListsMeta.UserRoomData
+		}
+	}
 	timelines := s.userCache.LazyLoadTimelines(ctx, s.anchorLoadPosition, roomIDs, int(roomSub.TimelineLimit))
 
 	// 1. Prepare lazy loading data structures, txn IDs.
-- 
2.43.0


From 336a3402565ae6f0feed9527f56cf2c8de8f0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:56 +0000
Subject: [PATCH 22/48] fix: changes to a room were not sent if an update
 without events overtook them

---
 sync3/handler/connstate_live.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 32f2202..0c532c2 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -368,6 +368,13 @@ func (s *connStateLive) processGlobalUpdates(ctx context.Context, builder *Rooms
 		}
 
 		metadata := rup.GlobalRoomMetadata().DeepCopy()
+		if _, isInvite := up.(*caches.InviteUpdate); !isRoomEventUpdate && !isInvite {
+			// This update (e.g typing, receipts) can be ahead of the room's events. Leave changes to the room
+			// for those events to bring, as nothing is sent for them now.
+			if known := s.lists.ReadOnlyRoom(rup.RoomID()); known != nil {
+				metadata = known.RoomMetadata.DeepCopy()
+			}
+		}
 		metadata.RemoveHero(s.userID)
 		// TODO: if we change a room from being a DM to not being a DM, we should call
 		// SetRoom and recalculate avatars. To do that we'd need to
-- 
2.43.0


From e93eeb53f5663fa2649f64e2acfc7bc7aa3de746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:32 +0000
Subject: [PATCH 23/48] fix: an event held back for its transaction ID only
 needs newer unread counts

---
 sync3/caches/user.go       | 20 ++++++++++++++------
 sync3/handler/connstate.go |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index dea2284..8c5d2dc 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -414,13 +414,21 @@ func (c *UserCache) newRoomUpdate(ctx context.Context, roomID string) RoomUpdate
 	}
 }
 
-// RefreshRoomEventUpdate returns a copy of this update with a new snapshot of the user cache / global
-// cache data, for use when the update was held back: other updates for this room may have been sent
-// to the connection in the meantime (e.g unread counts), which must not be undone by an older snapshot.
-func (c *UserCache) RefreshRoomEventUpdate(ctx context.Context, up *RoomEventUpdate) *RoomEventUpdate {
+// RefreshRoomEventUpdate returns a copy of this update with the current unread counts, for use when the
+// update was held back: unread counts for this room may have been sent to the connection in the meantime
+// which must not be undone by the older ones in this update.
+func (c *UserCache) RefreshRoomEventUpdate(up *RoomEventUpdate) *RoomEventUpdate {
+	latest := c.LoadRoomData(up.RoomID())
+	urd := *up.UserRoomMetadata()
+	urd.NotificationCount = latest.NotificationCount
+	urd.HighlightCount = latest.HighlightCount
 	return &RoomEventUpdate{
-		RoomUpdate: c.newRoomUpdate(ctx, up.RoomID()),
-		EventData:  up.EventData,
+		RoomUpdate: &roomUpdateCache{
+			roomID:         up.RoomID(),
+			globalRoomData: up.GlobalRoomMetadata(),
+			userRoomData:   &urd,
+		},
+		EventData: up.EventData,
 	}
 }
 
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 5a5fa74..67e1dde 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -87,7 +87,7 @@ func NewConnState(
 		maxTransactionIDDelay,
 		func(delayed bool, update caches.Update) {
 			if eventUpdate, ok := update.(*caches.RoomEventUpdate); ok && delayed {
-				update = cs.userCache.RefreshRoomEventUpdate(context.Background(), eventUpdate)
+				update = cs.userCache.RefreshRoomEventUpdate(eventUpdate)
 			}
 			cs.live.onUpdate(update)
 		},
-- 
2.43.0


From 1b5030555ae4b2f5afffc47321144451a3791fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:32 +0000
Subject: [PATCH 24/48] fix: a room joined after the first request to an empty
 database was never sent

---
 sync3/handler/connstate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 67e1dde..9d12ff6 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -175,7 +175,7 @@ func (s *ConnState) load(ctx context.Context, req *sync3.Request) error {
 
 // OnIncomingRequest is guaranteed to be called sequentially (it's protected by a mutex in conn.go)
 func (s *ConnState) OnIncomingRequest(ctx context.Context, cid sync3.ConnID, req *sync3.Request, isInitial bool, start time.Time) (*sync3.Response, error) {
-	if s.anchorLoadPosition <= 0 {
+	if s.anchorLoadPosition < 0 {
 		// load() needs no ctx so drop it
 		_, region := internal.StartSpan(ctx, "load")
 		err := s.load(ctx, req)
-- 
2.43.0


From c11e1473942e24f0fd9f637b0dbe4605c6ee192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:35 +0000
Subject: [PATCH 25/48] fix: the event which adds a room to a space was sent in
 the timeline of that room

---
 sync3/caches/user.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 8c5d2dc..f427876 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -600,9 +600,12 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 	// now we need to notify connections for the _child_
 	// but only if they are allowed to see the child event (i.e they are joined to the child room)
 	if c.joinChecker.IsUserJoined(c.UserID, childRoomID) {
+		// The event belongs to the space: it must not end up in the timeline of the child.
+		childEventData := *eventData
+		childEventData.Event = nil
 		roomUpdate := &RoomEventUpdate{
 			RoomUpdate: c.newRoomUpdate(ctx, childRoomID),
-			EventData:  eventData,
+			EventData:  &childEventData,
 		}
 		c.emitOnRoomUpdate(ctx, roomUpdate)
 	}
-- 
2.43.0


From 99db37e26653e801abaff116f3714f428de72429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 26/48] fix: an invite to a room which m.direct already lists
 made it lose its direct chat flag

---
 sync3/caches/user.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index f427876..39f48dd 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -666,7 +666,9 @@ func (c *UserCache) OnInvite(ctx context.Context, roomID string, inviteStateEven
 	urd.IsInvite = true
 	urd.HasLeft = false
 	urd.HighlightCount = InvitesAreHighlightsValue
-	urd.IsDM = inviteData.IsDM
+	if inviteData.IsDM {
+		urd.IsDM = true // else leave what m.direct says
+	}
 	urd.Invite = inviteData
 	c.roomToDataMu.Lock()
 	c.roomToData[roomID] = urd
-- 
2.43.0


From b02abfd4ff583db4e0047b65201a6ae7b8f09539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:02 +0000
Subject: [PATCH 27/48] fix: update the name of a hero when the room already
 has six heroes

---
 sync3/caches/global.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/caches/global.go b/sync3/caches/global.go
index 49c9474..4085805 100644
--- a/sync3/caches/global.go
+++ b/sync3/caches/global.go
@@ -348,7 +348,7 @@ func (c *GlobalCache) OnNewEvent(
 					metadata.RemoveHero(*ed.StateKey)
 				}
 			}
-			if len(metadata.Heroes) < 6 && (membership == "join" || membership == "invite") {
+			if membership == "join" || membership == "invite" {
 				// try to find the existing hero e.g they changed their display name
 				found := false
 				for i := range metadata.Heroes {
@@ -359,7 +359,7 @@ func (c *GlobalCache) OnNewEvent(
 						break
 					}
 				}
-				if !found {
+				if !found && len(metadata.Heroes) < 6 {
 					metadata.Heroes = append(metadata.Heroes, internal.Hero{
 						ID:     *ed.StateKey,
 						Name:   ed.Content.Get("displayname").Str,
-- 
2.43.0


From 2fca06fb422f933f7b497cf34179653d9164209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:52 +0000
Subject: [PATCH 28/48] fix: an event held back for its transaction ID undid
 typing notifications sent in the meantime

---
 sync3/caches/user.go       | 14 +++++++++-----
 sync3/handler/connstate.go |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 39f48dd..a72a759 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -414,18 +414,22 @@ func (c *UserCache) newRoomUpdate(ctx context.Context, roomID string) RoomUpdate
 	}
 }
 
-// RefreshRoomEventUpdate returns a copy of this update with the current unread counts, for use when the
-// update was held back: unread counts for this room may have been sent to the connection in the meantime
-// which must not be undone by the older ones in this update.
-func (c *UserCache) RefreshRoomEventUpdate(up *RoomEventUpdate) *RoomEventUpdate {
+// RefreshRoomEventUpdate returns a copy of this update with the current unread counts and typing users,
+// for use when the update was held back: unread counts or typing notifications for this room may have been
+// sent to the connection in the meantime which must not be undone by the older ones in this update.
+func (c *UserCache) RefreshRoomEventUpdate(ctx context.Context, up *RoomEventUpdate) *RoomEventUpdate {
 	latest := c.LoadRoomData(up.RoomID())
 	urd := *up.UserRoomMetadata()
 	urd.NotificationCount = latest.NotificationCount
 	urd.HighlightCount = latest.HighlightCount
+	globalRoomData := *up.GlobalRoomMetadata()
+	if r := c.globalCache.LoadRooms(ctx, up.RoomID())[up.RoomID()]; r != nil {
+		globalRoomData.TypingEvent = r.TypingEvent
+	}
 	return &RoomEventUpdate{
 		RoomUpdate: &roomUpdateCache{
 			roomID:         up.RoomID(),
-			globalRoomData: up.GlobalRoomMetadata(),
+			globalRoomData: &globalRoomData,
 			userRoomData:   &urd,
 		},
 		EventData: up.EventData,
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 9d12ff6..8e9569d 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -87,7 +87,7 @@ func NewConnState(
 		maxTransactionIDDelay,
 		func(delayed bool, update caches.Update) {
 			if eventUpdate, ok := update.(*caches.RoomEventUpdate); ok && delayed {
-				update = cs.userCache.RefreshRoomEventUpdate(eventUpdate)
+				update = cs.userCache.RefreshRoomEventUpdate(context.Background(), eventUpdate)
 			}
 			cs.live.onUpdate(update)
 		},
-- 
2.43.0


From 31ae51918afd8cbe18712817155372af1364fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:50 +0000
Subject: [PATCH 29/48] fix: a transaction ID which is already stored made the
 others of its timeline get lost

---
 state/txn_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/state/txn_table.go b/state/txn_table.go
index 8120c19..12b54b2 100644
--- a/state/txn_table.go
+++ b/state/txn_table.go
@@ -48,7 +48,8 @@ func (t *TransactionsTable) Insert(userID, deviceID string, eventIDToTxnID map[s
 	}
 	result, err := t.db.NamedQuery(`
 		INSERT INTO syncv3_txns (user_id, device_id, event_id, txn_id, ts)
-        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)`, rows)
+        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)
+        ON CONFLICT (user_id, device_id, event_id) DO NOTHING`, rows)
 	if err == nil {
 		result.Close()
 	}
-- 
2.43.0


From 4fef39c0fb8d5d80fce3c933561cff6c68096416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 30/48] fix: updates were lost if the consumer of a pubsub
 channel was stalled for 5 seconds

---
 pubsub/pubsub.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pubsub/pubsub.go b/pubsub/pubsub.go
index f3132ae..65f5d6b 100644
--- a/pubsub/pubsub.go
+++ b/pubsub/pubsub.go
@@ -1,10 +1,8 @@
 package pubsub
 
 import (
-	"fmt"
 	"os"
 	"sync"
-	"time"
 
 	"github.com/prometheus/client_golang/prometheus"
 	"github.com/rs/zerolog"
@@ -77,12 +75,9 @@ func (ps *PubSub) getChan(chanName string) chan Payload {
 
 func (ps *PubSub) Notify(chanName string, p Payload) error {
 	ch := ps.getChan(chanName)
-	select {
-	case ch <- p:
-		break
-	case <-time.After(5 * time.Second):
-		return fmt.Errorf("notify with payload %v timed out", p.Type())
-	}
+	// Wait for as long as it takes: payloads are not sent again, so dropping one because the consumer is
+	// held up (e.g by connections which are not being read from) loses the update for every user.
+	ch <- p
 	if ps.bufferSize == 0 {
 		// for some reason go test -race flags this as racing with calls
 		// to close(ch), despite the fact that it _should_ be thread-safe :S
-- 
2.43.0


From b5d77e8e4e989f49a37fe1044eb9c346e71d8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 31/48] fix: the state of a room changed after the user had
 left was sent to new connections

---
 state/storage.go           |  8 ++++++--
 sync3/handler/connstate.go | 12 ++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/state/storage.go b/state/storage.go
index 03120e4..6896641 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -41,6 +41,9 @@ type LatestEvents struct {
 	Timeline  []json.RawMessage
 	PrevBatch string
 	LatestNID int64
+	// The position up to which the user is allowed to see the room. This is less than the position asked
+	// for if the user had already left the room at that position.
+	VisibleUntil int64
 }
 
 // DiscardIgnoredMessages modifies the struct in-place, replacing the Timeline with
@@ -751,8 +754,9 @@ func (s *Storage) LatestEventsInRooms(userID string, roomIDs []string, to int64,
 			// we want the most recent event to be last, so reverse the slice now in-place.
 			slices.Reverse(roomEvents)
 			latestEvents := LatestEvents{
-				LatestNID: latestEventNID,
-				Timeline:  roomEvents,
+				LatestNID:    latestEventNID,
+				Timeline:     roomEvents,
+				VisibleUntil: r[1],
 			}
 			if earliestEventNID != 0 {
 				// the oldest event needs a prev batch token, so find one now
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 8e9569d..1912a57 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -621,9 +621,14 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 	// Filter out rooms we are only invited to, as we don't need to fetch the state
 	// since we'll be using the invite_state only.
 	loadRoomIDs := make([]string, 0, len(roomIDs))
+	var leftRoomIDs []string // rooms which we have left by the anchor position
 	for _, roomID := range roomIDs {
 		userRoomData, ok := userRoomDatas[roomID]
 		if !ok || !userRoomData.IsInvite {
+			if latestEvents, ok := timelines[roomID]; ok && latestEvents.VisibleUntil > 0 && latestEvents.VisibleUntil < s.anchorLoadPosition {
+				leftRoomIDs = append(leftRoomIDs, roomID)
+				continue
+			}
 			loadRoomIDs = append(loadRoomIDs, roomID)
 		}
 	}
@@ -635,6 +640,13 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 	if roomIDToState == nil { // e.g no required_state
 		roomIDToState = make(map[string][]json.RawMessage)
 	}
+	// The database can be ahead of the updates we have processed, so we can get here having already left a room.
+	// Like the timeline, the state must not include anything after that.
+	for _, roomID := range leftRoomIDs {
+		for roomID, state := range s.globalCache.LoadRoomState(ctx, []string{roomID}, timelines[roomID].VisibleUntil, rsm, roomToUsersInTimeline) {
+			roomIDToState[roomID] = state
+		}
+	}
 
 	// 3. Build sync3.Room structs to return to clients.
 	rooms := make(map[string]sync3.Room, len(roomIDs))
-- 
2.43.0


From 0faf936719aaaddcc98d82dea8af85b384ee0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 32/48] fix: the name of a room was revealed to a user whose
 invite to it had been retired already

---
 sync3/caches/user.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index a72a759..8ecf8c4 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -622,7 +622,8 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 	// reset the IsInvite field when the user actually joins/rejects the invite
 	if eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
 		membership := eventData.Content.Get("membership").Str
-		rejectedInvite = urd.IsInvite && (membership == "leave" || membership == "ban")
+		// the invite may have been retired already, if the leave event came down sync v2 as an event of a left room first
+		rejectedInvite = (urd.IsInvite || urd.HasLeft) && (membership == "leave" || membership == "ban")
 		if urd.IsInvite {
 			urd.IsInvite = membership == "invite"
 			if !urd.IsInvite {
-- 
2.43.0


From 8d46307934b7e7e94a34f6374e94c30a43ed3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 33/48] fix: an event held back for its transaction ID undid
 tags and direct chat flags sent in the meantime

---
 sync3/caches/user.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 8ecf8c4..c59a976 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -414,14 +414,16 @@ func (c *UserCache) newRoomUpdate(ctx context.Context, roomID string) RoomUpdate
 	}
 }
 
-// RefreshRoomEventUpdate returns a copy of this update with the current unread counts and typing users,
-// for use when the update was held back: unread counts or typing notifications for this room may have been
-// sent to the connection in the meantime which must not be undone by the older ones in this update.
+// RefreshRoomEventUpdate returns a copy of this update with the current unread counts, account data and typing
+// users, for use when the update was held back: unread counts, account data or typing notifications for this room
+// may have been sent to the connection in the meantime which must not be undone by the older ones in this update.
 func (c *UserCache) RefreshRoomEventUpdate(ctx context.Context, up *RoomEventUpdate) *RoomEventUpdate {
 	latest := c.LoadRoomData(up.RoomID())
 	urd := *up.UserRoomMetadata()
 	urd.NotificationCount = latest.NotificationCount
 	urd.HighlightCount = latest.HighlightCount
+	urd.IsDM = latest.IsDM
+	urd.Tags = latest.Tags
 	globalRoomData := *up.GlobalRoomMetadata()
 	if r := c.globalCache.LoadRooms(ctx, up.RoomID())[up.RoomID()]; r != nil {
 		globalRoomData.TypingEvent = r.TypingEvent
-- 
2.43.0


From ae2c5c00dc856fda3bc39875eb74444bb91930ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 34/48] fix: valid access tokens were refused if the poller had
 been started with an older token

---
 sync3/handler/handler.go | 42 +++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/sync3/handler/handler.go b/sync3/handler/handler.go
index 60f1968..57edb80 100644
--- a/sync3/handler/handler.go
+++ b/sync3/handler/handler.go
@@ -417,15 +417,8 @@ func (h *SyncLiveHandler) setupConnection(req *http.Request, cancel context.Canc
 
 	pid := sync2.PollerID{UserID: token.UserID, DeviceID: token.DeviceID}
 	log.Trace().Any("pid", pid).Msg("checking poller exists and is running")
-	expiredToken := h.EnsurePoller.EnsurePolling(req.Context(), pid, token.AccessTokenHash)
-	if expiredToken {
-		log.Error().Msg("EnsurePolling failed, returning 401")
-		// Assumption: the only way that EnsurePolling fails is if the access token is invalid.
-		return req, nil, &internal.HandlerError{
-			StatusCode: http.StatusUnauthorized,
-			ErrCode:    "M_UNKNOWN_TOKEN",
-			Err:        fmt.Errorf("EnsurePolling failed: access token invalid or invalidated"),
-		}
+	if herr := h.ensurePolling(req.Context(), pid, token, accessToken); herr != nil {
+		return req, nil, herr
 	}
 	log.Trace().Msg("poller exists and is running")
 	// this may take a while so if the client has given up (e.g timed out) by this point, just stop.
@@ -462,6 +455,37 @@ func (h *SyncLiveHandler) setupConnection(req *http.Request, cancel context.Canc
 	return req, conn, nil
 }
 
+// ensurePolling makes sure that there is a poller for this device, started with the given token if there was none.
+func (h *SyncLiveHandler) ensurePolling(ctx context.Context, pid sync2.PollerID, token *sync2.Token, accessToken string) *internal.HandlerError {
+	expiredToken := h.EnsurePoller.EnsurePolling(ctx, pid, token.AccessTokenHash)
+	if !expiredToken {
+		return nil
+	}
+	// EnsurePolling fails if the access token used by the poller is invalid. That isn't necessarily this token, as
+	// the poller may have been started with a previous token for this device. Clients log out if they are told
+	// that their token is invalid, so make sure that it is.
+	_, _, err := h.V2.WhoAmI(ctx, accessToken)
+	if err == nil {
+		if expiredToken = h.EnsurePoller.EnsurePolling(ctx, pid, token.AccessTokenHash); !expiredToken {
+			return nil
+		}
+		err = fmt.Errorf("access token is valid but the poller could not be started")
+	}
+	if err != sync2.HTTP401 {
+		logger.Warn().Err(err).Str("user", pid.UserID).Str("device", pid.DeviceID).Msg("EnsurePolling failed")
+		return &internal.HandlerError{
+			StatusCode: http.StatusBadGateway,
+			Err:        fmt.Errorf("EnsurePolling failed: %w", err),
+		}
+	}
+	logger.Error().Str("user", pid.UserID).Str("device", pid.DeviceID).Msg("EnsurePolling failed, returning 401")
+	return &internal.HandlerError{
+		StatusCode: http.StatusUnauthorized,
+		ErrCode:    "M_UNKNOWN_TOKEN",
+		Err:        fmt.Errorf("EnsurePolling failed: access token invalid or invalidated"),
+	}
+}
+
 func (h *SyncLiveHandler) identifyUnknownAccessToken(ctx context.Context, accessToken string, logger *zerolog.Logger) (*sync2.Token, *internal.HandlerError) {
 	// We don't recognise the given accessToken. Ask the homeserver who owns it.
 	userID, deviceID, err := h.V2.WhoAmI(ctx, accessToken)
-- 
2.43.0


From d2687f98dd42a8015a193e5cb5be79efa9d0114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 35/48] fix: a connection created whilst its poller expired
 never got any updates

---
 sync3/handler/ensure_polling.go | 7 +++++++
 sync3/handler/handler.go        | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/sync3/handler/ensure_polling.go b/sync3/handler/ensure_polling.go
index 24a54ca..072296e 100644
--- a/sync3/handler/ensure_polling.go
+++ b/sync3/handler/ensure_polling.go
@@ -183,6 +183,13 @@ func (p *EnsurePoller) OnExpiredToken(payload *pubsub.V2ExpiredToken) {
 	// by signalling via the expired flag.
 }
 
+// IsExpired returns true if the poller for this device has stopped because its token is invalid.
+func (p *EnsurePoller) IsExpired(pid sync2.PollerID) bool {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.pendingPolls[pid].expired
+}
+
 func (p *EnsurePoller) Teardown() {
 	p.notifier.Close()
 	if p.numPendingEnsurePolling != nil {
diff --git a/sync3/handler/handler.go b/sync3/handler/handler.go
index 57edb80..47ecb34 100644
--- a/sync3/handler/handler.go
+++ b/sync3/handler/handler.go
@@ -451,6 +451,14 @@ func (h *SyncLiveHandler) setupConnection(req *http.Request, cancel context.Canc
 	conn = h.ConnMap.CreateConn(connID, cancel, func() sync3.ConnHandler {
 		return NewConnState(token.UserID, token.DeviceID, userCache, h.GlobalCache, h.Extensions, h.Dispatcher, h.setupHistVec, h.histVec, h.maxPendingEventUpdates, h.maxTransactionIDDelay)
 	})
+	// If the poller stopped since the check above then connections for this device have been closed already, which
+	// this one missed. It would never receive anything, as only new connections make sure that there is a poller.
+	if h.EnsurePoller.IsExpired(pid) {
+		if herr := h.ensurePolling(req.Context(), pid, token, accessToken); herr != nil {
+			h.ConnMap.CloseConnsForDevice(token.UserID, token.DeviceID)
+			return req, nil, herr
+		}
+	}
 	log.Info().Msg("created new connection")
 	return req, conn, nil
 }
-- 
2.43.0


From d74dece81a49770375de9832c25021334ff0d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 36/48] fix: a second device skipped the rooms of its user
 relying on a poller which had not synced yet

---
 sync2/poller.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index 0210a6a..730696f 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -279,8 +279,9 @@ func (h *PollerMap) EnsurePolling(pid PollerID, accessToken, v2since string, isS
 		if pid.UserID != existingPID.UserID || pid.DeviceID == existingPID.DeviceID {
 			continue
 		}
-		// Now we have same-user different-device.
-		if !poller.terminated.Load() {
+		// Now we have same-user different-device. It only has this user's room data if its first sync
+		// has been processed: until then its token may turn out to be expired.
+		if !poller.terminated.Load() && poller.hasSynced.Load() {
 			needToWait = false
 			break
 		}
@@ -439,7 +440,9 @@ type poller struct {
 
 	// flag set to true when poll() returns due to expired access tokens
 	terminated *atomic.Bool
-	wg         *sync.WaitGroup
+	// flag set to true when the first sync response has been processed
+	hasSynced *atomic.Bool
+	wg        *sync.WaitGroup
 
 	// stats about poll response data, for logging purposes
 	lastLogged              time.Time
@@ -471,6 +474,7 @@ func newPoller(pid PollerID, accessToken string, client Client, receiver V2DataR
 		client:              client,
 		receiver:            receiver,
 		terminated:          &atomic.Bool{},
+		hasSynced:           &atomic.Bool{},
 		logger:              logger,
 		wg:                  &wg,
 		initialToDeviceOnly: initialToDeviceOnly,
@@ -651,6 +655,7 @@ func (p *poller) poll(ctx context.Context, s *pollLoopState) error {
 
 	if s.firstTime {
 		s.firstTime = false
+		p.hasSynced.Store(true)
 		p.wg.Done()
 	}
 	p.trackProcessDuration(timeSince(start), wasInitial, wasFirst)
-- 
2.43.0


From 1829c2ec54c545b8cbec0fe3f102789b6237ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:53 +0000
Subject: [PATCH 37/48] fix: state from the future was sent if the load
 position is in a room's initial state

---
 state/event_table.go | 13 +++++++++++++
 state/storage.go     | 12 +++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/state/event_table.go b/state/event_table.go
index 33c5c6c..6a65a99 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -304,6 +304,19 @@ func (t *EventTable) SelectUnknownEventIDs(txn *sqlx.Tx, maybeUnknownEventIDs []
 	return unknownMap, nil
 }
 
+// SelectNextBeforeSnapshotID returns the before_state_snapshot_id of the first event in this room after `eventNID` which
+// has one, or 0 if there is no such event.
+func (t *EventTable) SelectNextBeforeSnapshotID(txn *sqlx.Tx, roomID string, eventNID int64) (snapID int64, err error) {
+	err = txn.QueryRow(
+		`SELECT before_state_snapshot_id FROM syncv3_events WHERE room_id=$1 AND event_nid > $2 AND before_state_snapshot_id != 0 ORDER BY event_nid ASC LIMIT 1`,
+		roomID, eventNID,
+	).Scan(&snapID)
+	if err == sql.ErrNoRows {
+		err = nil
+	}
+	return
+}
+
 // UpdateBeforeSnapshotID sets the before_state_snapshot_id field to `snapID` for the given NIDs.
 func (t *EventTable) UpdateBeforeSnapshotID(txn *sqlx.Tx, eventNID, snapID, replacesNID int64) error {
 	_, err := txn.Exec(
diff --git a/state/storage.go b/state/storage.go
index 6896641..f878a9b 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -566,12 +566,18 @@ func (s *Storage) RoomStateAfterEventPosition(ctx context.Context, roomIDs []str
 			roomIndex[ev.RoomID] = i
 			if ev.BeforeStateSnapshotID == 0 {
 				// if there is no before snapshot then this last event NID is _part of_ the initial state,
-				// ergo the state after this == the current state and we can safely ignore the lastEventNID
-				ev.BeforeStateSnapshotID = 0
-				ev.BeforeStateSnapshotID, err = s.Accumulator.roomsTable.CurrentAfterSnapshotID(txn, ev.RoomID)
+				// ergo the state after this == the state before the next event, if the database is ahead of us.
+				ev.BeforeStateSnapshotID, err = s.Accumulator.eventsTable.SelectNextBeforeSnapshotID(txn, ev.RoomID, ev.NID)
 				if err != nil {
 					return err
 				}
+				if ev.BeforeStateSnapshotID == 0 {
+					// there is no such event, ergo the state after this == the current state and we can safely ignore the lastEventNID
+					ev.BeforeStateSnapshotID, err = s.Accumulator.roomsTable.CurrentAfterSnapshotID(txn, ev.RoomID)
+					if err != nil {
+						return err
+					}
+				}
 				latestEvents[i] = ev
 			}
 		}
-- 
2.43.0


From beefee57afe69dbdcd0c4816e7f54258a0c38327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:53 +0000
Subject: [PATCH 38/48] fix: loading a room without a timeline made already
 sent events be sent again

---
 sync3/handler/connstate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 1912a57..33c3bda 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -604,7 +604,10 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 		// room state is also pinned to the load position here, else you could see weird things in individual
 		// responses such as an updated room.name without the associated m.room.name event (though this will
 		// come through on the next request -> it converges to the right state so it isn't critical).
-		s.loadPositions[roomID] = latestEvents.LatestNID
+		// LatestNID is 0 if no events were asked for: this must not make us forget which events we have sent.
+		if latestEvents.LatestNID > s.loadPositions[roomID] {
+			s.loadPositions[roomID] = latestEvents.LatestNID
+		}
 	}
 	roomToTimeline = s.userCache.AnnotateWithTransactionIDs(ctx, s.userID, s.deviceID, roomToTimeline)
 
-- 
2.43.0


From 8840b690d1d256025aafd0ec7c2da2a565742e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:53 +0000
Subject: [PATCH 39/48] fix: a cancelled room key request was never cancelled
 if the cancellation was processed twice

---
 state/to_device_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/state/to_device_table.go b/state/to_device_table.go
index 8035dd7..d469ac0 100644
--- a/state/to_device_table.go
+++ b/state/to_device_table.go
@@ -167,8 +167,8 @@ func (t *ToDeviceTable) InsertMessages(userID, deviceID string, msgs []json.RawM
 		if len(cancels) > 0 {
 			var cancelled []string
 			// delete action: request events which have the same unique key, for this device inbox, only if they are not sent to the client already (unacked)
-			err = txn.Select(&cancelled, `DELETE FROM syncv3_to_device_messages WHERE unique_key = ANY($1) AND user_id = $2 AND device_id = $3 AND position > $4 RETURNING unique_key`,
-				pq.StringArray(cancels), userID, deviceID, unackPos)
+			err = txn.Select(&cancelled, `DELETE FROM syncv3_to_device_messages WHERE unique_key = ANY($1) AND user_id = $2 AND device_id = $3 AND position > $4 AND action = $5 RETURNING unique_key`,
+				pq.StringArray(cancels), userID, deviceID, unackPos, ActionRequest)
 			if err != nil {
 				return fmt.Errorf("failed to delete cancelled events: %s", err)
 			}
-- 
2.43.0


From 2cfb58fc4c2b818c69c0f8d4c879024b6fd25af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:32 +0000
Subject: [PATCH 40/48] fix: copy a room's heroes when refreshing a held back
 update

A shallow copy shares the slice of heroes, so removing a hero from one
copy shifts the other's heroes: a member was named twice in the room's
name and another not at all.
---
 sync3/caches/user.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index c59a976..a30e8c1 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -424,14 +424,15 @@ func (c *UserCache) RefreshRoomEventUpdate(ctx context.Context, up *RoomEventUpd
 	urd.HighlightCount = latest.HighlightCount
 	urd.IsDM = latest.IsDM
 	urd.Tags = latest.Tags
-	globalRoomData := *up.GlobalRoomMetadata()
+	// a copy, else removing a hero for one connection would corrupt the other copy's heroes
+	globalRoomData := up.GlobalRoomMetadata().DeepCopy()
 	if r := c.globalCache.LoadRooms(ctx, up.RoomID())[up.RoomID()]; r != nil {
 		globalRoomData.TypingEvent = r.TypingEvent
 	}
 	return &RoomEventUpdate{
 		RoomUpdate: &roomUpdateCache{
 			roomID:         up.RoomID(),
-			globalRoomData: &globalRoomData,
+			globalRoomData: globalRoomData,
 			userRoomData:   &urd,
 		},
 		EventData: up.EventData,
-- 
2.43.0


From a6c2453c47a9809702d1a130bae02a8255e7fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:08 +0000
Subject: [PATCH 41/48] fix: the avatar and name of a room changed after the
 user had left were sent to them

---
 sync3/handler/connstate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 33c3bda..8fa4ceb 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -667,6 +667,9 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 		if userRoomData.IsInvite {
 			metadata = userRoomData.Invite.RoomMetadata()
 			inviteState = userRoomData.Invite.InviteState
+		} else if roomListsMeta := s.lists.ReadOnlyRoom(roomID); userRoomData.HasLeft && roomListsMeta != nil {
+			// We left the room in the meantime: the current metadata can be from after that.
+			metadata = roomListsMeta.RoomMetadata.DeepCopy()
 		}
 		metadata.RemoveHero(s.userID)
 		var requiredState []json.RawMessage
-- 
2.43.0


From eb3bde8912f79f811f2bb9983dfb5de681e47447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:08 +0000
Subject: [PATCH 42/48] fix: a room which claims to replace itself made
 requests including old rooms loop forever

---
 sync3/handler/connstate.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 8fa4ceb..8aeebfa 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -494,7 +494,13 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 				if currRoom != nil {
 					prevRoomID = currRoom.PredecessorRoomID
 				}
+				visited := map[string]struct{}{currRoomID: {}}
 				for prevRoomID != nil { // <- the chain of old rooms
+					// the chain can be a loop, as it is up to the rooms what they claim to replace.
+					if _, seen := visited[*prevRoomID]; seen {
+						break
+					}
+					visited[*prevRoomID] = struct{}{}
 					// if not joined, bail
 					if !s.joinChecker.IsUserJoined(s.userID, *prevRoomID) {
 						break
@@ -502,9 +508,10 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 					oldRoomIDs = append(oldRoomIDs, *prevRoomID)
 					// keep checking
 					prevRoom := s.lists.ReadOnlyRoom(*prevRoomID)
-					if prevRoom != nil {
-						prevRoomID = prevRoom.PredecessorRoomID
+					if prevRoom == nil {
+						break
 					}
+					prevRoomID = prevRoom.PredecessorRoomID
 				}
 			}
 
-- 
2.43.0


From 4f2c734df09dcbf5d82bd76020f86a1d2a467b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:09 +0000
Subject: [PATCH 43/48] fix: deleting an unknown list created it

---
 sync3/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync3/request.go b/sync3/request.go
index 618e970..e340d0a 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -347,6 +347,9 @@ func (r *Request) ApplyDelta(nextReq *Request) (result *Request, delta *RequestD
 			continue
 		}
 		if !existingOk {
+			if nextList.Deleted {
+				continue // already gone e.g the client retried the deletion
+			}
 			// we added a list
 			// default to recency sort order if missing and there isn't a previous list value to draw from
 			if len(nextList.Sort) == 0 {
-- 
2.43.0


From a4454cf52e004fb85064919ad9a7829a4ba975c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:09 +0000
Subject: [PATCH 44/48] fix: combining room subscriptions lost heroes and old
 rooms and could corrupt their required state

---
 sync3/request.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sync3/request.go b/sync3/request.go
index e340d0a..8b8176e 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -615,10 +615,19 @@ func (rs RoomSubscription) combineRecursive(other RoomSubscription, checkOldRoom
 		result.TimelineLimit = other.TimelineLimit
 	}
 	// combine together required_state fields, we'll union them later
-	result.RequiredState = append(rs.RequiredState, other.RequiredState...)
+	// NB: this must not append to rs.RequiredState in place as it is shared with other combined subscriptions.
+	result.RequiredState = make([][2]string, 0, len(rs.RequiredState)+len(other.RequiredState))
+	result.RequiredState = append(result.RequiredState, rs.RequiredState...)
+	result.RequiredState = append(result.RequiredState, other.RequiredState...)
+	// include heroes if either wants them
+	result.Heroes = rs.Heroes
+	if other.IncludeHeroes() {
+		result.Heroes = other.Heroes
+	}
 
 	if checkOldRooms {
 		// set include_old_rooms if it is unset
+		result.IncludeOldRooms = rs.IncludeOldRooms
 		if rs.IncludeOldRooms == nil {
 			result.IncludeOldRooms = other.IncludeOldRooms
 		} else if other.IncludeOldRooms != nil {
-- 
2.43.0


From 7fccd8db188d353ee11f780f2fa8c175eaba54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:09 +0000
Subject: [PATCH 45/48] fix: resetting the metadata of a room lost its
 tombstone and space children

---
 state/storage.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/state/storage.go b/state/storage.go
index f878a9b..c40826e 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -332,8 +332,9 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 	FROM syncv3_events JOIN snapshot ON (
 		event_nid = ANY (ARRAY_CAT(events, membership_events))
 	)
-	WHERE (event_type IN ('m.room.name', 'm.room.avatar', 'm.room.canonical_alias', 'm.room.encryption') AND state_key = '')
+	WHERE (event_type IN ('m.room.name', 'm.room.avatar', 'm.room.canonical_alias', 'm.room.encryption', 'm.room.tombstone') AND state_key = '')
 	   OR (event_type = 'm.room.member' AND membership IN ('join', '_join', 'invite', '_invite'))
+	   OR event_type = 'm.space.child'
 	ORDER BY event_nid ASC
 	;`, metadata.RoomID)
 	if err != nil {
@@ -367,8 +368,18 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 			case "_invite":
 				metadata.InviteCount++
 			}
+		case "m.room.tombstone":
+			newRoomID := gjson.GetBytes(ev.JSON, "content.replacement_room").Str
+			if newRoomID == "" {
+				metadata.UpgradedRoomID = nil
+			} else {
+				metadata.UpgradedRoomID = &newRoomID
+			}
 		case "m.space.child":
-			metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			// children without servers to join via have been removed from the space
+			if gjson.GetBytes(ev.JSON, "content.via").IsArray() {
+				metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			}
 		}
 	}
 
@@ -383,8 +394,8 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 		metadata.Heroes = append(metadata.Heroes, hero)
 	}
 
-	// For now, don't bother reloading PredecessorID and UpgradedRoomID.
-	// These shouldn't be changing during a room's lifetime in normal operation.
+	// For now, don't bother reloading PredecessorID.
+	// This shouldn't be changing during a room's lifetime in normal operation.
 
 	// We haven't updated LatestEventsByType because that's not part of the timeline.
 	return nil
-- 
2.43.0


From b8a1ca9955124bc6686a20ec86d107f9e3291b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:09 +0000
Subject: [PATCH 46/48] fix: closing an expired connection made its replacement
 unreachable for updates

---
 sync3/connmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sync3/connmap.go b/sync3/connmap.go
index 287770f..1ecad1e 100644
--- a/sync3/connmap.go
+++ b/sync3/connmap.go
@@ -228,12 +228,15 @@ func (m *ConnMap) closeConn(conn *Conn) {
 
 	connKey := conn.ConnID.String()
 	logger.Trace().Str("conn", connKey).Msg("closing connection")
-	// remove conn from all the maps
-	delete(m.connIDToConn, connKey)
+	// remove conn from all the maps. Expired connections are closed asynchronously, so by now there may be a new
+	// connection with the same ID, which must be kept.
+	if m.connIDToConn[connKey] == conn {
+		delete(m.connIDToConn, connKey)
+	}
 	h := conn.handler
 	conns := m.userIDToConn[conn.UserID]
 	for i := 0; i < len(conns); i++ {
-		if conns[i].DeviceID == conn.DeviceID && conns[i].CID == conn.CID {
+		if conns[i] == conn {
 			// delete without preserving order
 			conns[i] = nil // allow GC
 			conns = slices.Delete(conns, i, i+1)
-- 
2.43.0


From 7542e9c45ab4cbe8c51906db650fff904a3ca285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:09 +0000
Subject: [PATCH 47/48] fix: a connection created whilst its user cache was
 destroyed never got any updates

---
 sync3/handler/handler.go | 42 ++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/sync3/handler/handler.go b/sync3/handler/handler.go
index 47ecb34..1a6a63b 100644
--- a/sync3/handler/handler.go
+++ b/sync3/handler/handler.go
@@ -431,26 +431,34 @@ func (h *SyncLiveHandler) setupConnection(req *http.Request, cancel context.Canc
 		}
 	}
 
-	userCache, err := h.userCache(token.UserID)
-	if err != nil {
-		log.Warn().Err(err).Msg("failed to load user cache")
-		return req, nil, &internal.HandlerError{
-			StatusCode: 500,
-			Err:        err,
-		}
-	}
-
 	// once we have the conn, make sure our metrics are correct
 	defer h.ConnMap.UpdateMetrics()
 
-	// Now the v2 side of things are running, we can make a v3 live sync conn
-	// NB: this isn't inherently racey (we did the check for an existing conn before EnsurePolling)
-	// because we *either* do the existing check *or* make a new conn. It's important for CreateConn
-	// to check for an existing connection though, as it's possible for the client to call /sync
-	// twice for a new connection.
-	conn = h.ConnMap.CreateConn(connID, cancel, func() sync3.ConnHandler {
-		return NewConnState(token.UserID, token.DeviceID, userCache, h.GlobalCache, h.Extensions, h.Dispatcher, h.setupHistVec, h.histVec, h.maxPendingEventUpdates, h.maxTransactionIDDelay)
-	})
+	for {
+		userCache, err := h.userCache(token.UserID)
+		if err != nil {
+			log.Warn().Err(err).Msg("failed to load user cache")
+			return req, nil, &internal.HandlerError{
+				StatusCode: 500,
+				Err:        err,
+			}
+		}
+
+		// Now the v2 side of things are running, we can make a v3 live sync conn
+		// NB: this isn't inherently racey (we did the check for an existing conn before EnsurePolling)
+		// because we *either* do the existing check *or* make a new conn. It's important for CreateConn
+		// to check for an existing connection though, as it's possible for the client to call /sync
+		// twice for a new connection.
+		conn = h.ConnMap.CreateConn(connID, func() {}, func() sync3.ConnHandler {
+			return NewConnState(token.UserID, token.DeviceID, userCache, h.GlobalCache, h.Extensions, h.Dispatcher, h.setupHistVec, h.histVec, h.maxPendingEventUpdates, h.maxTransactionIDDelay)
+		})
+		// If the user cache was destroyed since we got it then the connections using it have been closed already,
+		// which this one missed. It would never receive anything, so replace it.
+		if c, ok := h.userCaches.Load(token.UserID); ok && c.(*caches.UserCache) == userCache {
+			break
+		}
+	}
+	conn.SetCancelCallback(cancel)
 	// If the poller stopped since the check above then connections for this device have been closed already, which
 	// this one missed. It would never receive anything, as only new connections make sure that there is a poller.
 	if h.EnsurePoller.IsExpired(pid) {
-- 
2.43.0


From 3693b2faf7aebb4fcef43867a41e8b37e444a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:33 +0000
Subject: [PATCH 48/48] fix: a failed query at start-up left all idle devices
 without pollers

StartV2Pollers gave up when the tokens could not be loaded, so no device was
polled until it connected and old pollers were never cleaned up. The result of
one device's initial sync was also reported for another's.
---
 sync2/handler2/handler.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index da1b17e..13236c2 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -127,11 +127,17 @@ func (h *Handler) Teardown() {
 }
 
 func (h *Handler) StartV2Pollers() {
-	tokens, err := h.v2Store.TokensTable.TokenForEachDevice(nil)
-	if err != nil {
+	var tokens []sync2.TokenForPoller
+	for {
+		var err error
+		tokens, err = h.v2Store.TokensTable.TokenForEachDevice(nil)
+		if err == nil {
+			break
+		}
+		// keep trying, else we would not poll for any device which isn't connected to us right now.
 		logger.Err(err).Msg("StartV2Pollers: failed to query tokens")
 		sentry.CaptureException(err)
-		return
+		time.Sleep(3 * time.Second)
 	}
 	// how many concurrent pollers to make at startup.
 	// Too high and this will flood the upstream server with sync requests at startup.
@@ -159,7 +165,7 @@ func (h *Handler) StartV2Pollers() {
 					UserID:   t.UserID,
 					DeviceID: t.DeviceID,
 				}
-				_, err = h.pMap.EnsurePolling(
+				_, err := h.pMap.EnsurePolling(
 					pid, t.AccessToken, t.Since, true,
 					logger.With().Str("user_id", t.UserID).Str("device_id", t.DeviceID).Logger(),
 				)
-- 
2.43.0

