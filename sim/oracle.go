package main

import (
	"encoding/json"
	"fmt"
	"github.com/tidwall/gjson"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

var markerRE = regexp.MustCompile(`mk([0-9]+)k|ad~(@[a-z0-9]+:hs)~|"tdid":"(td[0-9]+)"`)

// mayKnow: may user ever have been shown event e, given the history so far?
func (h *HS) mayKnow(user string, e *hsEvent) bool {
	r := h.rooms[e.room]
	if t := h.evs[e.redacts]; t != nil && h.mayKnow(user, t) {
		return true // shown as part of the event it redacts
	}
	if e.sender == user || e.typ == "m.room.member" && e.stateKey != nil && *e.stateKey == user {
		return true
	}
	prev := r.memberAt(user, e.idx)
	if prev == "join" {
		return true
	}
	for i := e.idx; i < len(r.events); i++ {
		x := r.events[i]
		if x.typ == "m.room.member" && x.stateKey != nil && *x.stateKey == user {
			if x.membership() == "join" && e.isState() {
				return true
			}
			if e.typ == "m.room.member" && *e.stateKey == x.sender && r.stateAt(i)[e.key()] == e {
				return true // who invited, kicked or banned the user
			}
			if x.membership() == "invite" && e.isState() {
				// part of the stripped state shown with the invite
				switch e.typ {
				case "m.room.create", "m.room.join_rules", "m.room.canonical_alias", "m.room.avatar", "m.room.encryption", "m.room.name", "m.room.topic":
					if r.stateAt(i + 1)[e.key()] == e {
						return true
					}
				case "m.room.member":
					if *e.stateKey == x.sender && r.stateAt(i + 1)[e.key()] == e {
						return true
					}
				}
				// the homeserver computes invite state when it is asked, so later state of these kinds can be included while the invite lasts
				switch e.typ {
				case "m.room.create", "m.room.join_rules", "m.room.canonical_alias", "m.room.avatar", "m.room.encryption", "m.room.name", "m.room.topic":
					return true
				case "m.room.member":
					if *e.stateKey == x.sender {
						return true
					}
				}
			}
		}
	}
	// state of the stripped kinds sent while an invite was pending
	if prev == "invite" && e.isState() {
		switch e.typ {
		case "m.room.create", "m.room.join_rules", "m.room.canonical_alias", "m.room.avatar", "m.room.encryption", "m.room.name", "m.room.topic":
			return true
		case "m.room.member":
			if inv := r.lastMember(user, e.idx); inv != nil && *e.stateKey == inv.sender {
				return true
			}
		}
	}
	return false
}

func (r *hsRoom) lastMember(user string, idx int) *hsEvent {
	for i := idx - 1; i >= 0; i-- {
		if e := r.events[i]; e.typ == "m.room.member" && e.stateKey != nil && *e.stateKey == user {
			return e
		}
	}
	return nil
}

// checkConfidential scans a raw response for data its user has no right to see.
func (c *Client) checkConfidential(raw []byte) {
	h := c.w.hs
	me := c.dev.user.id
	done := map[string]bool{}
	for _, m := range markerRE.FindAllSubmatch(raw, -1) {
		if done[string(m[0])] {
			continue
		}
		done[string(m[0])] = true
		switch {
		case len(m[1]) > 0:
			n, _ := strconv.Atoi(string(m[1]))
			e := h.byN[n]
			if e == nil {
				fatalf("marker %s has no event", m[0])
			}
			if !h.mayKnow(me, e) {
				if h.rooms[e.room].stateRedacted && onlyMetadata(raw, e.room, string(m[0])) {
					c.w.finding("conf", "redaction-ahead", "%s was sent content of %s (%s in %s, index %d) in the room's metadata; membership of %s there: %s", c.name(), e.id, e.typ, e.room, e.idx, me, h.rooms[e.room].history(me))
					continue
				}
				c.w.violateSeen(h.rooms[e.room], me, e.idx, "conf", "event content leaked", "%s was sent content of %s (%s in %s, index %d); membership of %s there: %s", c.name(), e.id, e.typ, e.room, e.idx, me, h.rooms[e.room].history(me))
			}
		case len(m[2]) > 0:
			if string(m[2]) != me {
				c.w.violate("conf", "account data leaked", "%s was sent account data of %s", c.name(), m[2])
			}
		case len(m[3]) > 0:
			ok := false
			for _, t := range c.dev.inbox {
				ok = ok || t.id == string(m[3])
			}
			if !ok {
				c.w.violate("td", "message for another device", "%s was sent %s", c.name(), m[3])
			}
		}
	}
}

// onlyMetadata: the marker is in the response only as part of the room's name, avatar or heroes.
func onlyMetadata(raw []byte, room, marker string) bool {
	var r struct {
		Rooms map[string]struct {
			Name   string          `json:"name"`
			Avatar json.RawMessage `json:"avatar"`
			Heroes json.RawMessage `json:"heroes"`
		} `json:"rooms"`
	}
	json.Unmarshal(raw, &r)
	m := r.Rooms[room]
	return strings.Count(m.Name+string(m.Avatar)+string(m.Heroes), marker) == strings.Count(string(raw), marker)
}

func (r *hsRoom) history(user string) string {
	var out []string
	for _, e := range r.events {
		if e.typ == "m.room.member" && *e.stateKey == user {
			out = append(out, fmt.Sprintf("%d:%s", e.idx, e.membership()))
		}
	}
	return strings.Join(out, " ")
}

type evJSON struct {
	ID       string                 `json:"event_id"`
	Type     string                 `json:"type"`
	Sender   string                 `json:"sender"`
	StateKey *string                `json:"state_key"`
	Content  map[string]interface{} `json:"content"`
	Unsigned map[string]interface{} `json:"unsigned"`
}

// checkEvent validates one event as delivered; nil if it is not one of the room's events.
func (c *Client) checkEvent(room *hsRoom, raw json.RawMessage, where string) *hsEvent {
	w := c.w
	var e evJSON
	if err := json.Unmarshal(raw, &e); err != nil {
		w.violate("tl-order", "undecodable event", "%s: %s of %s: %v", c.name(), where, room.id, err)
		return nil
	}
	m := w.hs.evs[e.ID]
	if m == nil || m.room != room.id {
		w.violate("conf", "event of another room", "%s: %s of %s contains %s", c.name(), where, room.id, raw)
		return nil
	}
	if m.typ != e.Type || m.sender != e.Sender || (m.stateKey == nil) != (e.StateKey == nil) || m.stateKey != nil && *m.stateKey != *e.StateKey {
		w.violate("tl-order", "event altered", "%s: %s of %s: %s", c.name(), where, room.id, raw)
	}
	mk, _ := e.Content["marker"].(string)
	if mk != m.marker && !(m.redacted && mk == "") {
		w.violate("tl-order", "event content altered", "%s: %s of %s: %s", c.name(), where, room.id, raw)
	}
	if t, ok := e.Unsigned["transaction_id"]; ok {
		if m.txnDev != c.dev || t != m.txn {
			w.violate("txn", "transaction ID shown to another device", "%s: %s of %s carries transaction_id %v", c.name(), e.ID, room.id, t)
		} else {
			w.stats["txn_seen"]++
		}
	} else if m.txnDev == c.dev && where != "required_state" && room.racy == "" && !w.k.txnFault {
		limit := m.given + time.Duration(w.cfg.TxnDelayMS)*time.Millisecond
		switch {
		case m.redacted: // a redaction may take the unsigned section with it
		case w.k.now()-m.given > 55*time.Minute: // kept for an hour
		case m.txnConf > 0 && c.askedAt > m.txnConf:
			w.violate("txn", "transaction ID missing", "%s: %s of %s lacks transaction_id %s, which the device's own stream brought %v before the request", c.name(), e.ID, room.id, m.txn, c.askedAt-m.txnConf)
		case where == "live timeline" && (m.txnConf > 0 && m.txnConf < limit || m.txnConf == 0 && w.k.now() < limit) && c.dev.firstAt > 0 && c.dev.firstAt < m.given && len(c.dev.dead) == 0:
			for x := m.idx + 1; x < len(room.events); x++ {
				if o := room.events[x]; o.sender == m.sender && o.given > 0 && (o.given < m.txnConf || m.txnConf == 0) {
					return m // published together with a later event of this user
				}
			}
			w.violate("txn", "event not held for its transaction ID", "%s: %s of %s lacks transaction_id %s, shown %v after the event first arrived (the device's own stream brought it at %v)", c.name(), e.ID, room.id, m.txn, w.k.now()-m.given, m.txnConf)
		}
	}
	return m
}

// visible: is event idx part of the timeline the user may see?
func (r *hsRoom) visible(user string, idx int) bool {
	e := r.events[idx]
	if e.typ == "m.room.member" && *e.stateKey == user {
		return true
	}
	return r.memberAt(user, idx) == "join" && r.memberAt(user, idx+1) == "join" || r.memberAt(user, idx+1) == "join"
}

// excused: may event idx be absent from the user's timeline?
func (c *Client) excused(r *hsRoom, idx int) bool {
	e := r.events[idx]
	u := c.dev.user
	if r.gap[idx] {
		return true
	}
	if e.typ == "m.room.member" && *e.stateKey == u.id && e.membership() != "join" {
		return true // own leaves are reported by removing the room
	}
	if !r.visible(u.id, idx) {
		return true
	}
	if e.stateKey == nil && u.everIgnored[e.sender] {
		return true
	}
	return false
}

// unseenLeave: the user is out of the room, but no response the proxy acknowledged said so.
func (r *hsRoom) unseenLeave(user string) bool {
	for x := len(r.events) - 1; x >= 0; x-- {
		if e := r.events[x]; e.typ == "m.room.member" && *e.stateKey == user {
			m := e.membership()
			return m != "join" && m != "invite" && !(r.inTL[x] && r.conf[x])
		}
	}
	return false
}

// violateMember is violateRoom for claims about the user's own membership.
func (w *World) violateMember(r *hsRoom, user, class, key, format string, a ...interface{}) {
	if r.unseenLeave(user) {
		w.finding(class, "unseen-leave", format, a...)
		return
	}
	if r.staleLeave[user] {
		w.finding(class, "stale-leave", format, a...)
		return
	}
	w.violateRoom(r, class, key, format, a...)
}

// violateIn is for claims about what one client is shown of one room.
func (c *Client) violateIn(r *hsRoom, class, key, format string, a ...interface{}) {
	c.w.violateMember(r, c.dev.user.id, class, key, format, a...)
}

// violateSeen is violateRoom for claims that the user was out of the room at idx.
func (w *World) violateSeen(r *hsRoom, user string, idx int, class, key, format string, a ...interface{}) {
	told, joined := false, false
	for x := 0; x < idx && x < len(r.events); x++ {
		if e := r.events[x]; e.typ == "m.room.member" && *e.stateKey == user {
			switch {
			case e.membership() == "join":
				joined, told = true, false
			case e.membership() != "invite" && (r.conf[x] || r.maybe[x]) && !r.gap[x]:
				told = true
			}
		}
	}
	if joined && !told {
		w.finding(class, "unseen-leave", format, a...)
		return
	}
	w.violateRoom(r, class, key, format, a...)
}

func (w *World) violateRoom(r *hsRoom, class, key, format string, a ...interface{}) {
	v := fmt.Sprintf(format, a...)
	if r.racy != "" {
		w.finding(class, "stale-chunk", "%s [%s: %s]", v, r.id, r.racy)
		return
	}
	w.violate(class, key, "%s", v)
}

// applyRooms applies room data and checks it against the homeserver's history.
func (c *Client) applyRooms(r *response) {
	w := c.w
	h := w.hs
	me := c.dev.user.id
	for _, id := range sortedKeys(r.Rooms) {
		rr := r.Rooms[id]
		hr := h.rooms[id]
		if hr == nil {
			w.violate("conf", "unknown room", "%s: room %s does not exist", c.name(), id)
			continue
		}
		v := c.rooms[id]
		if v == nil {
			v = &roomView{id: id, first: -1, last: -1, state: map[string]string{}, joined: -1, invited: -1}
			c.rooms[id] = v
		}
		old := *v
		if rr.Initial {
			*v = roomView{id: id, got: true, live: true, first: -1, last: -1, state: map[string]string{}, joined: 0, invited: -1, initN: c.nresp, initSeq: h.seq}
			v.again = old.got
			v.heroes = old.heroes // not sent again if only the timeline is
			w.stats["initial_rooms"]++
			// entering a second list sends the room again, with that list's required state only
			v.mixed = len(c.cur.lists)+len(c.cur.subs) > 1
			for _, l := range c.cur.lists {
				// rooms which were replaced are sent again along with their successor, with other state
				v.mixed = v.mixed || l.Old != nil && hr.get("m.room.tombstone", "") != nil
			}
			if c.tlChanged && old.got {
				// only the timeline, with the members it needs, is sent again when its limit changes
				for k, id := range old.state {
					v.state[k] = id
				}
			}
		}
		if rr.Name != nil {
			v.name = *rr.Name
			seen := map[string]bool{}
			for _, n := range strings.Split(strings.ReplaceAll(v.name, " and ", ", "), ", ") {
				if seen[n] {
					c.violateIn(h.rooms[id], "meta-final", "member named twice", "%s: %s is named %q", c.name(), id, v.name)
				}
				seen[n] = true
			}
		}
		if len(rr.Heroes) > 0 {
			v.heroes = rr.Heroes
			ids := map[string]bool{}
			// an explicit name given later within one response leaves the heroes in place, and so does leaving the window
			explicit := rr.Name != nil && *rr.Name == "Empty Room" || !c.inView(id)
			if hr := h.rooms[id]; hr != nil && rr.Name != nil {
				for _, e := range hr.events {
					explicit = explicit || e.typ == "m.room.name" && contentStr(e, "name") == *rr.Name || e.typ == "m.room.canonical_alias" && contentStr(e, "alias") == *rr.Name
				}
			}
			for _, x := range rr.Heroes {
				n := x.Name
				if n == "" {
					n = x.ID
				}
				if ids[x.ID] || x.ID == c.dev.user.id || rr.Name != nil && !explicit && len(rr.Heroes) <= 5 && !strings.Contains(*rr.Name, n) {
					c.violateIn(h.rooms[id], "meta-final", "heroes", "%s: %s is named %q with heroes %v", c.name(), id, v.name, rr.Heroes)
					break
				}
				ids[x.ID] = true
			}
		}
		if len(rr.Avatar) > 0 {
			v.avatar = ""
			json.Unmarshal(rr.Avatar, &v.avatar)
		} else if rr.Initial {
			v.avatar = ""
		}
		if rr.IsDM != nil {
			v.isDM = *rr.IsDM
		}
		if rr.Joined != nil {
			v.joined = *rr.Joined
		}
		if rr.Invited != nil {
			v.invited = *rr.Invited
		}
		if rr.Notif != nil {
			v.notif = *rr.Notif
		}
		if rr.High != nil {
			v.high = *rr.High
		}
		if rr.TS != 0 {
			v.ts = rr.TS
		}
		if rr.Invite != nil {
			v.invite = rr.Invite
			// an invite which is answered at once has the events of the answer, and the sender of each
			n := 0
			for _, raw := range rr.State {
				e := h.evs[gjson.GetBytes(raw, "event_id").Str]
				if e == nil || e.typ != "m.room.member" {
					n++
					continue
				}
				own := *e.stateKey == c.dev.user.id
				for _, t := range rr.Timeline {
					own = own || gjson.GetBytes(t, "sender").Str == *e.stateKey
				}
				if !own {
					n++
				}
			}
			if n > 0 {
				w.violate("invite-leak", "room data beside invite state", "%s: %s has invite_state together with %d state and %d timeline events", c.name(), id, len(rr.State), len(rr.Timeline))
			}
		}
		for _, raw := range rr.State {
			e := c.checkEvent(hr, raw, "required_state")
			if e == nil {
				continue
			}
			if !e.isState() {
				w.violate("state-final", "non-state event in required_state", "%s: %s in %s", c.name(), e.id, id)
				continue
			}
			v.state[e.key()] = e.id
		}
		last := v.last
		if rr.Initial {
			last = -1
		}
		for i, raw := range rr.Timeline {
			where := "timeline"
			if !rr.Initial {
				where = "live timeline"
			}
			e := c.checkEvent(hr, raw, where)
			if e == nil {
				continue
			}
			w.stats["timeline_events"]++
			if !hr.visible(me, e.idx) {
				w.violateSeen(hr, me, e.idx, "conf", "timeline event outside membership", "%s: timeline of %s contains %s (index %d); membership: %s", c.name(), id, e.id, e.idx, hr.history(me))
			}
			if last >= 0 || i > 0 {
				switch {
				case e.idx <= last && (v.live || i > 0):
					c.violateIn(hr, "tl-order", "event repeated or out of order", "%s: timeline of %s (initial=%v) delivers index %d after index %d", c.name(), id, rr.Initial, e.idx, last)
				case e.idx > last+1 && (v.live || i > 0) && !c.inView(id):
					// nothing is promised about rooms outside of every window
				case e.idx > last+1 && (v.live || i > 0):
					for x := last + 1; x < e.idx; x++ {
						if !c.excused(hr, x) {
							c.violateIn(hr, "tl-order", "event skipped", "%s: timeline of %s (initial=%v) goes from index %d to %d; %s was given to the proxy and is visible", c.name(), id, rr.Initial, last, e.idx, hr.events[x].id)
							break
						}
					}
				}
			}
			if e.idx > last {
				last = e.idx
			}
			if v.first < 0 {
				v.first = e.idx
			}
			// the state of a snapshot is as of its end: events of its timeline do not undo it
			if o := h.evs[v.state[e.key()]]; e.isState() && !(rr.Initial && o != nil && o.idx > e.idx) {
				v.state[e.key()] = e.id
			}
		}
		v.last = last
		if rr.Initial && rr.Invite == nil && old.got && old.last >= 0 && v.last >= 0 && v.last < old.last {
			c.violateIn(hr, "tl-order", "snapshot older than what was delivered", "%s: new snapshot of %s ends at index %d, already delivered up to %d", c.name(), id, v.last, old.last)
		}
		if rr.PrevBatch != "" && len(rr.Timeline) > 0 {
			v.prevBatch = rr.PrevBatch
			var n int
			var rm string
			if k, _ := fmt.Sscanf(strings.Replace(rr.PrevBatch, "_", " ", 1), "p%d %s", &n, &rm); k != 2 || rm != id[1:strings.Index(id, ":")] {
				w.violate("pagin", "pagination token of another room", "%s: %s has prev_batch %s", c.name(), id, rr.PrevBatch)
			} else if f := c.firstIdx(rr); f >= 0 && n < f && !c.pagOK(hr, n, f) {
				c.violateIn(hr, "pagin", "pagination token skips events", "%s: timeline of %s starts at index %d but its prev_batch paginates from before index %d", c.name(), id, f, n)
			}
		}
	}
	for _, id := range sortedKeys(c.rooms) {
		v := c.rooms[id]
		in := c.inView(id)
		if !in && v.live {
			v.live = false
			// the homeserver's filter verdict is ahead of the proxy's: it may never have left the list
			if hr := h.rooms[id]; hr != nil && hr.member(c.dev.user.id) == "join" {
				for _, spec := range c.cur.lists {
					v.flip = v.flip || spec.slow()
				}
			}
		}
	}
	for _, id := range c.viewed() {
		hr := h.rooms[id]
		if hr == nil {
			continue
		}
		v := c.rooms[id]
		if v == nil || !v.got {
			if c.cur.subs[id] != nil && !c.inList(id) {
				continue // subscriptions wait for the user to be joined
			}
			w.violate("list-op", "room in window without data", "%s: %s is in a list window but its data was never sent", c.name(), id)
		} else if !v.live {
			if c.cur.subs[id] != nil && !c.inList(id) {
				continue
			}
			w.violate("list-op", "room back in window without data", "%s: %s came back into a list window without a fresh snapshot", c.name(), id)
			v.live = true
			v.last = -1
		}
	}
}

func (c *Client) firstIdx(rr *respRoom) int {
	var e evJSON
	json.Unmarshal(rr.Timeline[0], &e)
	if m := c.w.hs.evs[e.ID]; m != nil {
		return m.idx
	}
	return -1
}

// pagOK: paginating backwards from n when holding events from f on loses nothing visible.
func (c *Client) pagOK(r *hsRoom, n, f int) bool {
	for x := n; x < f; x++ {
		if !c.excusedPag(r, x) {
			return false
		}
	}
	return true
}

func (c *Client) excusedPag(r *hsRoom, idx int) bool {
	e := r.events[idx]
	return !r.visible(c.dev.user.id, idx) || e.typ == "m.room.member" && *e.stateKey == c.dev.user.id && e.membership() != "join" || e.stateKey == nil && c.dev.user.everIgnored[e.sender]
}

func (c *Client) viewed() []string {
	m := map[string]bool{}
	for id := range c.cur.subs {
		m[id] = true
	}
	for k, lv := range c.lists {
		if spec := c.cur.lists[k]; spec != nil {
			for i, id := range lv.idx {
				if spec.has(i) {
					m[id] = true
				}
			}
		}
	}
	return sortedKeys(m)
}

// viewedFinal adds the rooms of lists which track all rooms.
func (c *Client) viewedFinal() []string {
	m := map[string]bool{}
	for _, id := range c.viewed() {
		m[id] = true
	}
	for k, spec := range c.cur.lists {
		if c.lists[k] == nil || !spec.slow() {
			continue
		}
		for _, hr := range c.w.rooms() {
			if in, known := c.included(hr, spec.Filters); in && known {
				m[hr.id] = true
			}
		}
	}
	return sortedKeys(m)
}

func (c *Client) inList(id string) bool {
	for k, lv := range c.lists {
		if spec := c.cur.lists[k]; spec != nil {
			for i, x := range lv.idx {
				if x == id && spec.has(i) {
					return true
				}
			}
		}
	}
	return false
}

// ---- extensions ----

func (c *Client) applyExt(r *response, ans *sentReq) {
	w := c.w
	h := w.hs
	me := c.dev.user
	if td := r.Ext.ToDevice; td != nil {
		last := -1
		for _, raw := range td.Events {
			var e struct {
				Content struct {
					ID string `json:"tdid"`
				} `json:"content"`
			}
			json.Unmarshal(raw, &e)
			t := c.dev.findTD(e.Content.ID)
			if t == nil {
				continue // reported by the raw scan
			}
			w.stats["to_device"]++
			if t.seq <= last && t.given < 2 {
				// messages are delivered at least once: more often if the homeserver was asked again for them
				w.violate("td", "out of order or repeated within a response", "%s: %s after a later message", c.name(), t.id)
			}
			if t.seq > last {
				last = t.seq
			}
			c.tdSeen[t.id]++
			// everything sent earlier must have been handed to this device before or now
			for _, o := range c.dev.inbox {
				if o.seq < t.seq && !c.dev.tdEver[o.id] && !inTD(td.Events, o.id) && !c.withdrawn(o) {
					w.violateTD(o, "message skipped", "%s: received %s although the earlier %s was never delivered", c.name(), t.id, o.id)
				}
			}
			c.dev.tdEver[t.id] = true
			if t.shownAt == 0 {
				t.shownAt = w.k.now()
			}
		}
		if td.Next != "" {
			c.tdSince = td.Next
		}
	}
	if e := r.Ext.E2EE; e != nil {
		if e.OTK != nil {
			c.otk = e.OTK
		}
		if e.Fallback != nil {
			c.fallback, c.gotFB = *e.Fallback, true
		}
		if e.Devices != nil {
			for _, u := range e.Devices.Changed {
				c.changedSeen[u] = h.seq
				c.dev.changedSeen[u] = h.seq
			}
			for _, u := range e.Devices.Left {
				c.leftSeen[u] = h.seq
				c.dev.leftSeen[u] = h.seq
			}
		}
	}
	if a := r.Ext.Account; a != nil {
		c.gotAcct = true
		for _, raw := range a.Global {
			c.applyAcct("", raw)
		}
		for _, id := range sortedKeys(a.Rooms) {
			for _, raw := range a.Rooms[id] {
				c.applyAcct(id, raw)
			}
		}
	}
	if rc := r.Ext.Receipts; rc != nil {
		for _, id := range sortedKeys(rc.Rooms) {
			var e struct {
				Content map[string]map[string]map[string]struct {
					TS     int64  `json:"ts"`
					Thread string `json:"thread_id"`
				} `json:"content"`
			}
			json.Unmarshal(rc.Rooms[id], &e)
			hr := h.rooms[id]
			if hr == nil {
				w.violate("conf", "receipts of unknown room", "%s: %s", c.name(), id)
				continue
			}
			if c.receipts[id] == nil {
				c.receipts[id] = map[string]string{}
			}
			newest := map[string]int64{}
			for _, ev := range sortedKeys(e.Content) {
				for _, typ := range sortedKeys(e.Content[ev]) {
					for _, u := range sortedKeys(e.Content[ev][typ]) {
						d := e.Content[ev][typ][u]
						if typ == "m.read.private" && u != me.id {
							w.violate("priv", "private receipt leaked", "%s: private receipt of %s in %s", c.name(), u, id)
						}
						if !hr.hadReceipt(u, typ, d.Thread, ev) {
							w.violate("receipt-final", "receipt never sent", "%s: %s %s %s in %s", c.name(), u, typ, ev, id)
						}
						// one response may carry several receipts of a user: the timestamp tells which is newest
						if k := u + "|" + typ + "|" + d.Thread; d.TS >= newest[k] {
							newest[k] = d.TS
							c.receipts[id][k] = ev
						}
						w.stats["receipts"]++
					}
				}
			}
			if hr.member(me.id) != "join" && !hr.everJoined(me.id) {
				w.violate("conf", "receipts of a room never joined", "%s: %s", c.name(), id)
			}
		}
	}
	if ty := r.Ext.Typing; ty != nil {
		for _, id := range sortedKeys(ty.Rooms) {
			var e struct {
				Content struct {
					Users []string `json:"user_ids"`
				} `json:"content"`
			}
			json.Unmarshal(ty.Rooms[id], &e)
			sort.Strings(e.Content.Users)
			c.typing[id] = typSet(e.Content.Users)
			c.gotTyping[id] = true
			w.stats["typing"]++
			if hr := h.rooms[id]; hr == nil || !hr.everJoined(me.id) {
				w.violate("conf", "typing of a room never joined", "%s: %s", c.name(), id)
			}
		}
	}
	for _, id := range sortedKeys(r.Rooms) {
		// A room which came back into view may have missed receipts and typing whilst it was out of view, and this response
		// may have covered both.
		if r.Rooms[id].Initial && c.rooms[id] != nil && c.rooms[id].again {
			delete(c.receipts, id)
			delete(c.gotTyping, id)
		}
	}
}

func inTD(evs []json.RawMessage, id string) bool {
	for _, e := range evs {
		if strings.Contains(string(e), `"`+id+`"`) {
			return true
		}
	}
	return false
}

// withdrawn: a key request need not be delivered once it was withdrawn, nor a
// withdrawal whose request was never delivered.
func (c *Client) withdrawn(t *toDev) bool { return c.w.withdrawnFor(c.dev, t) }

func (w *World) withdrawnFor(d *hsDevice, t *toDev) bool {
	if t.req != nil {
		return !d.tdEver[t.req.id]
	}
	return t.gone != nil
}

// violateTD reports a missing to-device message, unless it withdraws a key request
// which was being handed out whilst the withdrawal was stored.
func (w *World) violateTD(t *toDev, key, format string, a ...interface{}) {
	if r := t.req; r != nil && (t.givenAt <= r.shownAt || r.given > 1) {
		w.finding("td", "cancel-race", format, a...)
		return
	}
	w.violate("td", key, format, a...)
}

func (d *hsDevice) findTD(id string) *toDev {
	for _, t := range d.inbox {
		if t.id == id {
			return t
		}
	}
	return nil
}

func (r *hsRoom) hadReceipt(user, typ, thread, ev string) bool {
	for _, rc := range r.receipts {
		if rc.user == user && rc.typ == typ && rc.thread == thread && rc.eventID == ev {
			return true
		}
	}
	return false
}

func (r *hsRoom) everJoined(user string) bool {
	for _, e := range r.events {
		if e.typ == "m.room.member" && *e.stateKey == user && e.membership() == "join" {
			return true
		}
	}
	return false
}

func (c *Client) applyAcct(room string, raw json.RawMessage) {
	var e struct {
		Type    string          `json:"type"`
		Content json.RawMessage `json:"content"`
	}
	json.Unmarshal(raw, &e)
	c.acct[room+"|"+e.Type] = string(e.Content)
	c.w.stats["account_data"]++
}

func (c *Client) onUnknownPos(q *sentReq) {
	w := c.w
	if c.pos == "" {
		w.violate("pos", "new connection refused", "%s: a request without a position was answered M_UNKNOWN_POS", c.name())
		return
	}
	w.k.probe["unknown_pos"]++
	if c.epoch == w.crashes && !c.slept && !w.mayExpire() {
		w.violate("pos", "position forgotten", "%s: position %s was issued by this process and refused; no restart, no overflow, no invalidation", c.name(), c.pos)
	}
}

// mayExpire: has anything happened which lets the proxy drop a connection?
func (w *World) mayExpire() bool {
	if w.cfg.MaxPending < 500 {
		return true
	}
	for _, id := range w.hs.order {
		r := w.hs.rooms[id]
		if r.invalidated || r.stateRedacted {
			return true
		}
	}
	return w.slowClient || w.tokenOps
}

func (c *Client) on401(tok string) {
	w := c.w
	c.unauth = true
	w.stats["http_401"]++
	if !c.bogus && !c.dev.revoked(tok) {
		w.violate("auth", "valid token refused", "%s: 401 for a token the homeserver accepts", c.name())
	}
}

var _ = time.Now
