package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
)

// run executes the whole simulation: setup, operations and faults, quiescence,
// convergence checks, and the same again after a final restart.
func (w *World) run() {
	c := w.cfg
	for i := 0; i < c.Users; i++ {
		u := w.hs.addUser(fmt.Sprintf("@u%d:hs", i), true)
		n := 1
		if i%2 == 0 {
			n = c.Devs
		}
		for j := 0; j < n; j++ {
			w.hs.addDevice(u, fmt.Sprintf("D%d%d", i, j))
		}
	}
	for i := 0; i < c.Remotes; i++ {
		w.hs.addUser(fmt.Sprintf("@remote%d:hs", i), false)
	}
	for w.opIdx < len(w.plan.Ops) && w.plan.Ops[w.opIdx].T == 0 {
		w.apply(w.plan.Ops[w.opIdx])
		w.opIdx++
	}
	w.start()
	if !w.runUntil(time.Now().Add(300*time.Second), func() bool { return w.up }) {
		w.violate("live", "proxy did not start", "no listener 300 s after start")
		return
	}
	end := w.k.t0.Add(time.Second)
	if n := len(w.plan.Ops); n > 0 {
		end = w.k.t0.Add(w.plan.Ops[n-1].at() + time.Second)
	}
	w.runUntil(end, nil)
	if w.done() {
		return
	}
	w.quiesce()
	if w.done() {
		return
	}
	w.finalClients()
	if w.done() {
		return
	}
	w.freshCheck("fresh")
	if w.done() {
		return
	}
	if w.plan.Prof == "long" {
		w.house()
		if w.done() {
			return
		}
	}
	if w.plan.NoFinalRestart {
		return
	}
	for _, c := range w.clients {
		c.closed = true
	}
	w.k.logf("final restart")
	w.procDied("final restart")
	w.restartAt = time.Now()
	if !w.runUntil(time.Now().Add(300*time.Second), func() bool { return w.up }) {
		w.violate("live", "proxy did not restart", "not serving 300 s after a restart with no faults")
		return
	}
	w.quietSince = time.Now()
	w.waitPollers("after restart")
	if w.done() {
		return
	}
	w.restarted = true
	w.freshCheck("restart")
}

func (w *World) done() bool {
	return w.stopped || len(w.viol) > 0 && w.plan.StopAtFirst
}

// quiesce stops all faults and waits for the system to catch up.
func (w *World) quiesce() {
	w.k.logf("quiesce: faults off")
	w.faultsOff = true
	w.crashIn = 0
	w.dbWinEnd, w.hsWinEnd, w.hsDownUntil, w.dbDownUntil = time.Time{}, time.Time{}, time.Time{}, time.Time{}
	w.oneDB, w.oneHS = nil, nil
	now := time.Now()
	for _, g := range w.k.gates {
		if g.stalled {
			g.ready = now
		}
	}
	w.k.poke()
	for _, c := range w.clients {
		c.pauseTo = time.Time{}
		c.nextFault = ""
		c.think = 5
	}
	if !w.up && w.restartAt.IsZero() && !w.starting {
		w.restartAt = now
	}
	if !w.runUntil(now.Add(300*time.Second), func() bool { return w.up }) {
		if !w.done() {
			w.violate("live", "proxy did not restart", "not serving 300 s after faults stopped")
		}
		return
	}
	w.quietSince = time.Now()
	w.waitPollers("after faults stopped")
	if w.done() {
		return
	}
	// long enough for batched updates (1 s), held transaction IDs (1 s), error
	// back-off (3 s) and one full long-poll of every client
	for _, c := range w.clients {
		c.timeout = 10000
	}
	w.runFor(12 * time.Second)
	mark := map[*Client]int{}
	for _, c := range w.clients {
		mark[c] = c.nresp
		c.idleResp = 0
	}
	ok := w.runUntil(time.Now().Add(200*time.Second), func() bool {
		for _, c := range w.clients {
			if !c.closed && !c.unauth && (c.nresp < mark[c]+2 || c.idleResp < 2) {
				return false
			}
		}
		return true
	})
	if !ok && !w.done() {
		for _, c := range w.clients {
			if !c.closed && !c.unauth && (c.nresp < mark[c]+2 || c.idleResp < 2) {
				if w.k.logOn {
					b := make([]byte, 1<<20)
					w.k.logFile.WriteString(string(b[:runtime.Stack(b, true)]) + "\n")
				}
				w.violate("live", "client did not settle", "%s: %d responses, last %d idle, 200 s after faults stopped (in flight: %v)", c.name(), c.nresp-mark[c], c.idleResp, c.inflight)
				break
			}
		}
	}
}

// waitPollers waits until every device the proxy serves is long-polling with
// nothing left to fetch.
func (w *World) waitPollers(when string) {
	behind := func() *hsDevice {
		for _, d := range w.hs.devices() {
			if d.served && !d.deleted && !d.dead[d.token] && !d.idle() {
				return d
			}
		}
		return nil
	}
	if !w.runUntil(time.Now().Add(120*time.Second), func() bool { return behind() == nil }) && !w.done() {
		d := behind()
		w.violate("live", "poller not caught up", "no up-to-date /sync request for %s/%s within 120 s %s (last since %q, homeserver at %d)", d.user.id, d.id, when, d.polled, w.hs.seq)
	}
}

func (d *hsDevice) idle() bool { return d.waiting > 0 }

// ---- expectations ----

func contentStr(e *hsEvent, k string) string {
	if e == nil {
		return ""
	}
	s, _ := e.content[k].(string)
	return s
}

// checkName verifies a room name against the room's state.
func (c *Client) checkName(hr *hsRoom, v *roomView, phase string) {
	if n := contentStr(hr.get("m.room.name", ""), "name"); n != "" {
		if v.name != n {
			c.violateIn(hr, "meta-final", "name", "%s (%s): %s is named %q, expected %q", c.name(), phase, hr.id, v.name, n)
		}
		return
	}
	if a := contentStr(hr.get("m.room.canonical_alias", ""), "alias"); a != "" {
		if v.name != a {
			c.violateIn(hr, "meta-final", "name from alias", "%s (%s): %s is named %q, expected %q", c.name(), phase, hr.id, v.name, a)
		}
		return
	}
	// calculated from members
	var others []string
	st := hr.state()
	for _, e := range h2sorted(st) {
		if e.typ == "m.room.member" && (e.membership() == "join" || e.membership() == "invite") && *e.stateKey != c.dev.user.id {
			dn := contentStr(e, "displayname")
			if dn == "" {
				dn = *e.stateKey
			}
			others = append(others, dn)
		}
	}
	if len(others) == 0 {
		if !strings.HasPrefix(v.name, "Empty Room") {
			c.violateIn(hr, "meta-final", "empty room name", "%s (%s): %s is named %q, expected an empty-room name", c.name(), phase, hr.id, v.name)
		}
		return
	}
	if len(others) <= 4 && hr.peak() <= 6 {
		for _, n := range others {
			if !strings.Contains(v.name, n) {
				c.violateIn(hr, "meta-final", "calculated name", "%s (%s): %s is named %q, which lacks member %q", c.name(), phase, hr.id, v.name, n)
				return
			}
		}
		if parts := strings.Split(strings.ReplaceAll(v.name, " and ", ", "), ", "); len(parts) != len(others) {
			c.violateIn(hr, "meta-final", "calculated name", "%s (%s): %s is named %q, expected only %q", c.name(), phase, hr.id, v.name, others)
		}
		asked := len(c.cur.subs) == 0
		for _, l := range c.cur.lists {
			asked = asked && l.Heroes != nil && *l.Heroes
		}
		if asked && hr.member(c.dev.user.id) == "join" && len(v.heroes) != len(others) {
			c.violateIn(hr, "meta-final", "heroes", "%s (%s): %s has heroes %v, expected those of %q", c.name(), phase, hr.id, v.heroes, others)
		}
	}
}

func h2sorted(m map[string]*hsEvent) []*hsEvent {
	out := make([]*hsEvent, 0, len(m))
	for _, e := range m {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].idx < out[j].idx })
	return out
}

// checkRoom compares the client's copy of a joined room with the homeserver.
func (c *Client) checkRoom(hr *hsRoom, v *roomView, phase string, spec [][2]string) {
	u := c.dev.user
	// timeline reaches the end
	if v.last >= 0 || v.first >= 0 {
		for x := v.last + 1; x < len(hr.events); x++ {
			if !c.excused(hr, x) {
				c.violateIn(hr, "tl-end", "timeline not up to date", "%s (%s): %s ends at index %d; %s (index %d) never arrived", c.name(), phase, hr.id, v.last, hr.events[x].id, x)
				break
			}
		}
	}
	c.checkName(hr, v, phase)
	av := contentStr(hr.get("m.room.avatar", ""), "url")
	if av != "" {
		if v.avatar != av {
			c.violateIn(hr, "meta-final", "avatar", "%s (%s): %s has avatar %q, expected %q", c.name(), phase, hr.id, v.avatar, av)
		}
	} else if !u.direct[hr.id] && !u.everDirect[hr.id] && v.avatar != "" {
		c.violateIn(hr, "meta-final", "avatar", "%s (%s): %s has avatar %q, expected none", c.name(), phase, hr.id, v.avatar)
	}
	if n := len(hr.joined()); v.joined != n {
		c.violateIn(hr, "meta-final", "joined_count", "%s (%s): %s has joined_count %d, expected %d", c.name(), phase, hr.id, v.joined, n)
	}
	if n := len(hr.withMembership("invite")); v.invited != -1 && v.invited != n {
		c.violateIn(hr, "meta-final", "invited_count", "%s (%s): %s has invited_count %d, expected %d", c.name(), phase, hr.id, v.invited, n)
	}
	if phase != "live" && v.isDM != u.direct[hr.id] {
		c.violateIn(hr, "meta-final", "is_dm", "%s (%s): %s has is_dm %v, expected %v", c.name(), phase, hr.id, v.isDM, u.direct[hr.id])
	}
	en, eh := 0, 0
	if ur := u.unread[hr.id]; ur != nil {
		en, eh = ur.notif, ur.high
	}
	if v.notif != en || v.high != eh {
		c.violateIn(hr, "unread-final", "unread counts", "%s (%s): %s has %d/%d, expected %d/%d", c.name(), phase, hr.id, v.notif, v.high, en, eh)
	}
	if spec != nil {
		for _, e := range h2sorted(hr.state()) {
			want := matches(spec, e, u.id)
			id, have := v.state[e.key()]
			if want && !have {
				c.violateIn(hr, "state-final", "state missing", "%s (%s): %s lacks %s %s (%s)", c.name(), phase, hr.id, e.typ, strv(e.stateKey), e.id)
			} else if have && id != e.id && (want || lazy(spec) && e.typ == "m.room.member") {
				c.violateIn(hr, "state-final", "state stale", "%s (%s): %s has %s for %s %s, expected %s", c.name(), phase, hr.id, id, e.typ, strv(e.stateKey), e.id)
			}
		}
	}
}

func matches(spec [][2]string, e *hsEvent, me string) bool {
	for _, p := range spec {
		if p[0] != "*" && p[0] != e.typ {
			continue
		}
		k := p[1]
		if k == "$ME" {
			k = me
		}
		if k == "$LAZY" {
			continue
		}
		if k == "*" || k == *e.stateKey {
			return true
		}
	}
	return false
}

func lazy(spec [][2]string) bool {
	for _, p := range spec {
		if p[1] == "$LAZY" {
			return true
		}
	}
	return false
}

// specFor: required state that has certainly been in force for the room since
// its last snapshot (subscription, or every list showing it).
func (c *Client) specFor(id string) [][2]string {
	var specs [][][2]string
	if s := c.cur.subs[id]; s != nil {
		specs = append(specs, s.State)
	}
	for k, lv := range c.lists {
		if c.cur.lists[k] == nil {
			continue
		}
		if c.cur.lists[k].slow() {
			specs = append(specs, c.cur.lists[k].State)
		}
		for _, x := range lv.idx {
			if x == id {
				specs = append(specs, c.cur.lists[k].State)
			}
		}
	}
	if len(specs) != 1 {
		return nil
	}
	if len(c.cur.lists)+len(c.cur.subs) > 1 {
		for _, l := range specs[0] {
			if l == [2]string{"*", "*"} {
				return nil // other entries narrow what "everything" means
			}
		}
	}
	return specs[0]
}

// finalClients checks the long-lived clients once everything has settled.
func (w *World) finalClients() {
	defer func() { w.checking = nil }()
	for _, c := range w.clients {
		if !c.closed && !c.fresh && (c.bogus || c.dev.revoked(c.tok)) {
			w.stats["revoked_checked"]++
			if !c.unauth {
				w.violate("auth", "revoked token still served", "%s: the homeserver refuses this token, the proxy still answers its requests", c.name())
			}
			continue
		}
		if c.closed || c.fresh || c.unauth || c.pos == "" {
			continue
		}
		w.checking = c
		u := c.dev.user
		w.stats["clients_checked"]++
		for _, id := range c.viewedFinal() {
			hr := w.hs.rooms[id]
			v := c.rooms[id]
			if v == nil || !v.got || !v.live {
				if hr.member(u.id) == "join" && !(v != nil && v.flip) {
					w.violateMember(hr, u.id, "tl-end", "room in view never sent", "%s: %s is in a list or subscribed to, joined, but no data arrived", c.name(), id)
				}
				continue
			}
			switch hr.member(u.id) {
			case "join":
				w.stats["rooms_checked"]++
				var spec [][2]string
				if !v.tlChanged && !v.mixed && !c.slowChanged {
					spec = c.specFor(id)
				}
				c.checkRoom(hr, v, "live", spec)
				c.checkEphemeral(hr, v)
			case "invite":
			default:
				if c.inList(id) {
					w.violateMember(hr, u.id, "list-final", "left room in list", "%s: %s is still in a list window although the user's membership is %q", c.name(), id, hr.member(u.id))
				}
			}
		}
		c.checkLists("live")
		c.checkAccount("live")
		if c.td {
			for _, t := range c.dev.inbox {
				if !c.dev.tdEver[t.id] && !c.withdrawn(t) {
					w.violateTD(t, "message never delivered", "%s: %s was sent to the device and not delivered 100 s after faults stopped", c.name(), t.id)
					break
				}
			}
		}
		if c.e2ee {
			c.checkE2EE("live")
		}
	}
}

func (c *Client) checkE2EE(phase string) {
	w := c.w
	d := c.dev
	if n, ok := c.otk["signed_curve25519"]; !ok || n != d.otk {
		w.violate("e2ee", "one-time key count", "%s (%s): has %v, expected %d", c.name(), phase, c.otk, d.otk)
	}
	if !c.gotFB || strings.Join(c.fallback, ",") != strings.Join(d.fallback, ",") {
		w.violate("e2ee", "fallback key types", "%s (%s): has %v (seen %v), expected %v", c.name(), phase, c.fallback, c.gotFB, d.fallback)
	}
	for _, id := range sortedKeys(d.user.devChanged) {
		if s := d.user.devChanged[id]; d.firstPoll >= 0 && s > d.firstPoll && d.changedSeen[id] < s {
			w.violate("e2ee", "device list change lost", "%s (%s): change of %s at %d was never delivered", c.name(), phase, id, s)
		}
	}
	for _, id := range sortedKeys(d.user.devLeft) {
		if s := d.user.devLeft[id]; d.firstPoll >= 0 && s > d.firstPoll && d.leftSeen[id] < s {
			w.violate("e2ee", "device list departure lost", "%s (%s): departure of %s at %d was never delivered", c.name(), phase, id, s)
		}
	}
}

func (c *Client) checkAccount(phase string) {
	w := c.w
	u := c.dev.user
	for _, t := range sortedKeys(u.global) {
		a := u.global[t]
		if got := c.acct["|"+t]; !sameJSON(got, a.content) {
			w.violate("acct-final", "global account data", "%s (%s): %s is %q, expected %q", c.name(), phase, t, got, a.content)
		}
	}
	for _, id := range c.viewedFinal() {
		hr := w.hs.rooms[id]
		v := c.rooms[id]
		if v == nil || !v.live || hr.member(u.id) != "join" {
			continue
		}
		for _, t := range sortedKeys(u.room[id]) {
			a := u.room[id][t]
			if got := c.acct[id+"|"+t]; !sameJSON(got, a.content) {
				c.violateIn(w.hs.rooms[id], "acct-final", "room account data", "%s (%s): %s %s is %q, expected %q", c.name(), phase, id, t, got, a.content)
			}
		}
	}
}

func sameJSON(a, b string) bool {
	if a == b {
		return true
	}
	var x, y interface{}
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	return string(p) == string(q)
}

// checkEphemeral: receipts and typing of a room continuously in view.
func (c *Client) checkEphemeral(hr *hsRoom, v *roomView) {
	w := c.w
	me := c.dev.user.id
	for _, rc := range hr.latestReceipts() {
		if rc.typ == "m.read.private" && rc.user != me {
			continue
		}
		got, ok := c.receipts[hr.id][rc.user+"|"+rc.typ+"|"+rc.thread]
		if ok && got != rc.eventID {
			c.violateIn(hr, "receipt-final", "stale receipt", "%s: %s %s in %s is %s, expected %s", c.name(), rc.user, rc.typ, hr.id, got, rc.eventID)
		}
		if !ok && rc.seq > v.initSeq && !hr.repeated(rc) {
			c.violateIn(hr, "receipt-final", "receipt never delivered", "%s: %s %s in %s (%s)", c.name(), rc.user, rc.typ, hr.id, rc.eventID)
		}
	}
	if !w.hs.typingTold(hr) {
		return
	}
	want := typSet(hr.typing)
	if c.typing[hr.id] != want && (c.gotTyping[hr.id] || hr.typSeq > v.initSeq && hr.typChanged(want)) {
		c.violateIn(hr, "typing-final", "typing users", "%s: typing in %s is %q, expected %q", c.name(), hr.id, c.typing[hr.id], want)
	}
}

// freshTyping: a new connection is told who is typing.
func (c *Client) freshTyping(hr *hsRoom, phase string) {
	if c.w.hs.typingTold(hr) && hr.typEpoch == c.w.crashes {
		if want := typSet(hr.typing); c.typing[hr.id] != want {
			c.violateIn(hr, "typing-final", "typing of a new connection", "%s (%s): typing in %s is %q, expected %q", c.name(), phase, hr.id, c.typing[hr.id], want)
		}
	}
}

// peak: most members and invitees at any time. Six of them are remembered for the
// calculated name; when those leave the others are only counted.
func (r *hsRoom) peak() int {
	in, peak := map[string]bool{}, 0
	for _, e := range r.events {
		if e.typ == "m.room.member" {
			if m := e.membership(); m == "join" || m == "invite" {
				in[*e.stateKey] = true
			} else {
				delete(in, *e.stateKey)
			}
			if len(in) > peak {
				peak = len(in)
			}
		}
	}
	return peak
}

// typChanged: whichever poller was responsible, the newest set of typing users
// differed from the one it had reported before. Unchanged sets are not sent on.
func (r *hsRoom) typChanged(want string) bool {
	for _, sets := range r.typGiven {
		prev := ""
		for _, t := range sets {
			if t.seq < r.typSeq {
				prev = t.set
			}
		}
		if prev == want {
			return false
		}
	}
	return true
}

// typingTold: the newest typing change was handed to a poller which is the one
// responsible for the room. Nobody tells the proxy who stopped typing whilst none
// of its users was in the room, and a poller keeps the responsibility until it
// learns that its user has left.
func (h *HS) typingTold(r *hsRoom) bool {
	if r.typSent != r.typSeq {
		return false
	}
	for _, d := range h.devices() {
		for tok, at := range d.toks {
			if d.revoked(tok) && (at == 0 || at > r.typSeq) {
				return false
			}
		}
	}
	for x, e := range r.events {
		if e.typ == "m.room.member" && h.users[*e.stateKey] != nil && e.membership() != "join" && e.membership() != "invite" {
			if at, ok := r.ownConf[x]; !ok || at >= r.typSeq {
				return false
			}
		}
	}
	return true
}

// ---- lists ----

// included: does the room belong in a list with this filter, for this user?
// known=false when the answer depends on something the model leaves open.
func (c *Client) included(hr *hsRoom, filter json.RawMessage) (in, known bool) {
	u := c.dev.user
	m := hr.member(u.id)
	if m != "join" && m != "invite" {
		return false, true
	}
	var f struct {
		DM     *bool    `json:"is_dm"`
		Enc    *bool    `json:"is_encrypted"`
		Inv    *bool    `json:"is_invite"`
		Tags   []string `json:"tags"`
		NTags  []string `json:"not_tags"`
		Types  []string `json:"room_types"`
		NTypes []string `json:"not_room_types"`
		Like   string   `json:"room_name_like"`
		Spaces []string `json:"spaces"`
	}
	json.Unmarshal(filter, &f)
	// replaced rooms are hidden when the replacement is joined
	if t := hr.get("m.room.tombstone", ""); t != nil && m == "join" {
		if nr := c.w.hs.rooms[contentStr(t, "replacement_room")]; nr != nil && nr.history(u.id) != "" {
			if !c.fresh || nr.racy != "" || nr.unseenLeave(u.id) || nr.staleLeave[u.id] {
				return false, false // re-evaluated when something happens in the old room
			}
			if nr.member(u.id) == "join" {
				return false, true
			}
		}
	}
	known = true
	in = true
	if f.DM != nil {
		if u.everDirect[hr.id] {
			known = false // re-evaluated lazily
		}
		in = in && u.direct[hr.id] == *f.DM
	}
	if f.Enc != nil {
		if m == "invite" {
			known = false
		}
		in = in && hr.enc == *f.Enc
	}
	if f.Inv != nil {
		in = in && (m == "invite") == *f.Inv
	}
	if len(f.Spaces) > 0 {
		child := false
		for _, id := range f.Spaces {
			sp := c.w.hs.rooms[id]
			if sp == nil || sp.member(u.id) != "join" {
				return false, false
			}
			for _, e := range sp.events {
				child = child || e.typ == "m.space.child" && *e.stateKey == hr.id
			}
			if !child {
				continue
			}
			if !c.w.restarted || sp.racy != "" || sp.unseenLeave(u.id) || sp.staleLeave[u.id] {
				return false, false // learned from the events of the space whilst in it
			}
			child = len(viaOf(sp.get("m.space.child", hr.id))) > 0
		}
		in = in && child
	}
	if f.Like != "" {
		n := contentStr(hr.get("m.room.name", ""), "name")
		if n == "" || m != "join" {
			return false, false
		}
		in = in && strings.Contains(strings.ToLower(n), strings.ToLower(f.Like))
	}
	has := func(t string) bool {
		a := u.room[hr.id]["m.tag"]
		return a != nil && strings.Contains(a.content, `"`+t+`"`)
	}
	for _, t := range f.NTags {
		in = in && !has(t)
	}
	if len(f.Tags) > 0 {
		any := false
		for _, t := range f.Tags {
			any = any || has(t)
		}
		in = in && any
	}
	if len(f.Tags)+len(f.NTags) > 0 && m == "invite" {
		known = false
	}
	for _, t := range f.NTypes {
		in = in && hr.typ != t
	}
	if len(f.Types) > 0 {
		any := false
		for _, t := range f.Types {
			any = any || hr.typ == t
		}
		in = in && any
	}
	return in, known
}

func (c *Client) checkLists(phase string) {
	w := c.w
	for _, key := range sortedKeys(c.cur.lists) {
		spec := c.cur.lists[key]
		lv := c.lists[key]
		if lv == nil {
			continue
		}
		exact := true
		racy, unseen, stale := false, false, false
		n := 0
		for _, hr := range w.rooms() {
			in, known := c.included(hr, spec.Filters)
			racy = racy || hr.racy != ""
			unseen = unseen || hr.unseenLeave(c.dev.user.id)
			stale = stale || hr.staleLeave[c.dev.user.id]
			if !known {
				exact = false
				continue
			}
			if in {
				n++
			}
			pos := -1
			for i, id := range lv.idx {
				if id == hr.id {
					pos = i
				}
			}
			if pos >= 0 && !in {
				w.violateMember(hr, c.dev.user.id, "list-final", "room does not belong", "%s (%s): list %q shows %s at %d (filter %s, membership %q)", c.name(), phase, key, hr.id, pos, spec.Filters, hr.member(c.dev.user.id))
			}
		}
		if exact && lv.count != n {
			if unseen {
				w.finding("list-final", "unseen-leave", "%s (%s): list %q count %d, expected %d", c.name(), phase, key, lv.count, n)
			} else if stale {
				w.finding("list-final", "stale-leave", "%s (%s): list %q count %d, expected %d", c.name(), phase, key, lv.count, n)
			} else if racy {
				w.finding("list-final", "stale-chunk", "%s (%s): list %q count %d, expected %d", c.name(), phase, key, lv.count, n)
			} else {
				w.violate("list-final", "list count", "%s (%s): list %q (filter %s) has count %d, expected %d", c.name(), phase, key, spec.Filters, lv.count, n)
			}
		}
		c.checkOrder(key, spec, lv, phase)
	}
}

// checkOrder verifies the sort order of the rooms in the window.
func (c *Client) checkOrder(key string, spec *listSpec, lv *listView, phase string) {
	w := c.w
	ks := lv.keys()
	for n := 1; n < len(ks); n++ {
		if ks[n] != ks[n-1]+1 {
			continue
		}
		a, b := c.rooms[lv.idx[ks[n-1]]], c.rooms[lv.idx[ks[n]]]
		ra, rb := w.hs.rooms[lv.idx[ks[n-1]]], w.hs.rooms[lv.idx[ks[n]]]
		if a == nil || b == nil || !a.got || !b.got {
			continue
		}
		ua, ub := c.dev.user.unread[ra.id], c.dev.user.unread[rb.id]
		for _, s := range spec.Sort {
			var x, y int64
			switch s {
			case "by_notification_count":
				x, y = int64(-a.notif), int64(-b.notif)
			case "by_highlight_count":
				x, y = int64(-a.high), int64(-b.high)
			case "by_notification_level":
				lvl := func(v *roomView, r *hsRoom) int64 {
					if v.high > 0 {
						return 0
					}
					if v.notif > 0 {
						if r.get("m.room.encryption", "") != nil {
							return 1
						}
						return 2
					}
					return 3
				}
				x, y = lvl(a, ra), lvl(b, rb)
			case "by_name":
				if ra.member(c.dev.user.id) != "join" || rb.member(c.dev.user.id) != "join" {
					x, y = 0, 1
					break
				}
				na, nb := contentStr(ra.get("m.room.name", ""), "name"), contentStr(rb.get("m.room.name", ""), "name")
				if na == "" || nb == "" || na != a.name || nb != b.name {
					x, y = 0, 1 // not judged
					break
				}
				x, y = int64(strings.Compare(canon(na), canon(nb))), 0
			case "by_recency":
				if w.cfg.SkewMS != 0 || ra.member(c.dev.user.id) != "join" || rb.member(c.dev.user.id) != "join" || len(spec.Bump) > 0 && !c.fresh {
					x, y = 0, 1
					break
				}
				if len(spec.Bump) > 0 {
					_, hi := ra.bumpTS(c.dev.user.id, spec.Bump)
					lo, _ := rb.bumpTS(c.dev.user.id, spec.Bump)
					if hi < lo {
						x, y = 1, 0
					} else {
						x, y = 0, 1
					}
					break
				}
				x, y = -ra.lastTS(), -rb.lastTS()
			}
			if x < y {
				break
			}
			if x > y {
				m := fmt.Sprintf("%s (%s): list %q sorted %v has %s at %d before %s (unread %v, %v)", c.name(), phase, key, spec.Sort, ra.id, ks[n-1], rb.id, ua, ub)
				me := c.dev.user.id
				if ra.racy != "" || ra.staleLeave[me] || ra.unseenLeave(me) {
					c.violateIn(ra, "list-final", "list order "+s, "%s", m)
				} else {
					c.violateIn(rb, "list-final", "list order "+s, "%s", m)
				}
				break
			}
		}
	}
}

func canon(s string) string { return strings.ToLower(strings.Trim(s, "#!():_@")) }

// bumpTS bounds the time of the room's newest event of these types which the user may see, or of their join.
func (r *hsRoom) bumpTS(user string, types []string) (lo, hi int64) {
	first, last := -1, -1
	prev := ""
	for x, e := range r.events {
		if e.typ == "m.room.member" && *e.stateKey == user {
			if e.membership() == "join" && prev != "join" {
				first = x
			}
			prev = e.membership()
			last = x
		}
	}
	if first < 0 {
		return 0, 1 << 62
	}
	lo, hi = r.events[first].ts, r.events[last].ts
	for x := first + 1; x < len(r.events); x++ {
		e := r.events[x]
		for _, t := range types {
			if e.typ != t {
				continue
			}
			if e.ts > hi {
				hi = e.ts
			}
			if x > last && r.inTL[x] && r.conf[x] && !r.gap[x] && e.ts > lo {
				lo = e.ts
			}
		}
	}
	return lo, hi
}

func (r *hsRoom) lastTS() int64 { return r.events[len(r.events)-1].ts }

// ---- fresh connections ----

func (w *World) freshCheck(phase string) {
	var cs []*Client
	for _, id := range w.hs.uord {
		u := w.hs.users[id]
		if !u.local {
			continue
		}
		for i, d := range u.devs {
			if d.deleted || d.dead[d.token] || i > 0 && phase == "restart" {
				continue
			}
			c := w.newClient(d, d.token)
			c.fresh = true
			c.timeout = 200
			c.think = 1
			c.td = false
			c.e2ee = false
			t := true
			c.want.lists["all"] = &listSpec{Ranges: [][2]int{{0, 199}}, Sort: []string{"by_recency"}, Filters: json.RawMessage(`{}`), State: [][2]string{{"*", "*"}}, TL: 30}
			if c.r.p(0.3) {
				c.want.lists["all"].Slow = &t
			}
			if c.r.p(0.3) {
				c.want.lists["bump"] = &listSpec{Ranges: [][2]int{{0, 199}}, Sort: []string{"by_recency"}, Filters: json.RawMessage(`{}`), State: [][2]string{{"*", "*"}}, TL: 30, Bump: []string{"m.room.message", "m.room.encrypted"}}
			}
			for _, r := range w.rooms() {
				if r.typ == "m.space" && r.member(u.id) == "join" && c.r.p(0.5) {
					c.want.lists["space"] = &listSpec{Ranges: [][2]int{{0, 199}}, Sort: []string{"by_recency"}, Filters: json.RawMessage(fmt.Sprintf(`{"spaces":[%q]}`, r.id)), State: [][2]string{{"*", "*"}}, TL: 30}
				}
			}
			cs = append(cs, c)
			go c.loop()
			break
		}
	}
	settled := func() *Client {
		for _, c := range cs {
			if c.fullCycles < 2 || c.idleResp < 2 {
				return c
			}
		}
		return nil
	}
	settle := func() bool {
		if !w.runUntil(time.Now().Add(200*time.Second), func() bool { return settled() == nil }) && !w.done() {
			w.violate("live", "new connection not served", "%s (%s): no settled response within 200 s", settled().name(), phase)
		}
		return !w.done()
	}
	if !settle() {
		return
	}
	// the polls started for newly seen devices may still be catching up, and what
	// they bring has to reach the connections
	for _, c := range cs {
		c.timeout = 2000
	}
	w.waitPollers(phase)
	w.runFor(4 * time.Second)
	for _, c := range cs {
		c.idleResp = 0
	}
	if w.done() || !settle() {
		return
	}
	defer func() { w.checking = nil }()
	for _, c := range cs {
		c.closed = true
	}
	for _, c := range cs {
		w.stats["fresh_checked"]++
		w.checking = c
		u := c.dev.user
		in := map[string]bool{}
		for _, id := range c.viewedFinal() {
			in[id] = true
		}
		for _, hr := range w.rooms() {
			want, known := c.included(hr, json.RawMessage(`{}`))
			if known && want != in[hr.id] {
				w.violateMember(hr, u.id, "member-final", "room set", "%s (%s): %s listed=%v, expected %v (membership %s)", c.name(), phase, hr.id, in[hr.id], want, hr.history(u.id))
				continue
			}
			if !want {
				continue
			}
			v := c.rooms[hr.id]
			if v == nil {
				continue
			}
			if hr.member(u.id) == "invite" {
				if len(v.invite) == 0 {
					c.violateIn(hr, "invite-final", "invite without invite state", "%s (%s): %s", c.name(), phase, hr.id)
				}
				continue
			}
			if len(v.invite) > 0 {
				c.violateIn(hr, "invite-final", "joined room shown as invite", "%s (%s): %s", c.name(), phase, hr.id)
				continue
			}
			c.freshTyping(hr, phase)
			c.checkRoom(hr, v, phase, c.cur.lists["all"].State)
			c.checkFreshTimeline(hr, v, phase)
		}
		c.checkLists(phase)
		c.checkAccount(phase)
		c.checkFreshReceipts(phase)
	}
	defer func() { w.checking = nil }()
	for _, c := range cs {
		c.closed = true
	}
}

// checkFreshTimeline: the snapshot must reach as far back as its limit allows.
func (c *Client) checkFreshTimeline(hr *hsRoom, v *roomView, phase string) {
	n := 0
	for x := len(hr.events) - 1; x >= 0; x-- {
		if hr.memberAt(c.dev.user.id, x+1) != "join" || hr.gap[x] {
			break
		}
		if hr.events[x].stateKey == nil && c.dev.user.everIgnored[hr.events[x].sender] {
			continue
		}
		n++
		if n > 30 || c.w.cfg.MaxTimeline > 0 && n > c.w.cfg.MaxTimeline {
			return
		}
		if x < v.first || v.first < 0 {
			c.violateIn(hr, "tl-end", "snapshot too short", "%s (%s): timeline of %s starts at index %d, %s (index %d) is missing", c.name(), phase, hr.id, v.first, hr.events[x].id, x)
			return
		}
		if hr.cut[x] {
			return // the proxy cannot know what is before it
		}
	}
}

func (c *Client) checkFreshReceipts(phase string) {
	me := c.dev.user.id
	for _, hr := range c.w.rooms() {
		v := c.rooms[hr.id]
		if hr.member(me) != "join" || v == nil {
			continue
		}
		for _, rc := range hr.latestReceipts() {
			if rc.typ == "m.read.private" && rc.user != me {
				continue
			}
			e := c.w.hs.evs[rc.eventID]
			got, ok := c.receipts[hr.id][rc.user+"|"+rc.typ+"|"+rc.thread]
			inTL := v.first >= 0 && e.idx >= v.first && e.idx <= v.last && !hr.gap[e.idx]
			if ok && got != rc.eventID {
				c.violateIn(hr, "receipt-final", "stale receipt", "%s (%s): %s %s in %s is %s, expected %s", c.name(), phase, rc.user, rc.typ, hr.id, got, rc.eventID)
			} else if !ok && (inTL || rc.user == me) {
				c.violateIn(hr, "receipt-final", "receipt lost", "%s (%s): %s %s in %s (%s) is missing", c.name(), phase, rc.user, rc.typ, hr.id, rc.eventID)
			}
		}
	}
}

// repeated: an earlier receipt said the same.
func (r *hsRoom) repeated(rc *receipt) bool {
	for _, o := range r.receipts {
		if o != rc && o.seq < rc.seq && o.user == rc.user && o.typ == rc.typ && o.thread == rc.thread && o.eventID == rc.eventID {
			return true
		}
	}
	return false
}
