package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// HS is the reference homeserver: one totally ordered stream of changes, from
// which every /sync response and every oracle expectation is computed.
type HS struct {
	keyReqs []*keyReq
	w       *World
	seq     int // global stream position
	rooms   map[string]*hsRoom
	order   []string // room IDs in creation order
	users   map[string]*hsUser
	uord    []string
	tok     map[string]*hsDevice
	evs     map[string]*hsEvent
	tsOff   int64
	nev     int
	byN     map[int]*hsEvent
}

type hsUser struct {
	id          string
	local       bool // has devices which may connect through the proxy
	devs        []*hsDevice
	global      map[string]*adata            // global account data by type
	room        map[string]map[string]*adata // room account data
	unread      map[string]*unread
	devList     int // seq of the last device list change
	devLeft     map[string]int
	keyLog      []int
	skips       []*skip // first polls without rooms which no other poller made up for yet
	everIgnored map[string]bool
	ignored     map[string]bool
	direct      map[string]bool // rooms in m.direct
	directWith  map[string]string
	everDirect  map[string]bool
	devChanged  map[string]int // who's device list this user must refetch, and since when
}

type adata struct {
	seq     int
	typ     string
	content string
}

type unread struct {
	seq, notif, high int
}

type toDev struct {
	seq              int
	id               string
	json             string
	acked            bool
	given            int // times it was handed to the proxy
	givenAt, shownAt time.Duration
	req              *toDev // the key request this message withdraws
	gone             *toDev // the message which withdraws this key request
}

type hsDevice struct {
	user                  *hsUser
	id                    string
	token                 string
	oldToks               []string
	inbox                 []*toDev // everything ever sent to this device
	otk                   int
	otkSeq                int
	fallback              []string
	deleted               bool
	e2eeTaken             bool
	refused               map[string]int  // token and epoch -> 401s given to /sync
	toks                  map[string]int  // tokens this process polled with -> 1 + stream position when refused
	served                bool            // a client of this device got a 200
	waiting               int             // long-polls with nothing to fetch
	firstAt               time.Duration   // when the first response was handed over
	firstPoll             int             // stream position of the first response, -1 before
	dead                  map[string]bool // revoked tokens
	pending               []*syncResp     // handed over, not yet acknowledged by a later poll
	polled                string          // since token of the latest poll
	polledTok             string          // and its access token
	polledAt              time.Time       // and when
	agedDays              int             // how long ago it was last used, as far as the proxy knows
	synced                int             // 1 + the epoch in which it last got a response
	skipped               int             // stream position of its last poll without rooms
	tdEver                map[string]bool // to-device messages some client of this device received
	changedSeen, leftSeen map[string]int
}

func (d *hsDevice) revoked(tok string) bool { return d.deleted || d.dead[tok] }

func (h *HS) devices() []*hsDevice {
	var out []*hsDevice
	for _, id := range h.uord {
		out = append(out, h.users[id].devs...)
	}
	return out
}

// onPoll: the proxy polls again for d; every response it acknowledges by its
// since token has been fully processed.
func (h *HS) onPoll(d *hsDevice, since, tok string) {
	d.polled = since
	d.polledAt = time.Now()
	d.polledTok = tok
	if d.toks == nil {
		d.toks = map[string]int{}
	}
	if _, ok := d.toks[tok]; !ok {
		d.toks[tok] = 0
	}
	from, _ := parseSince(since)
	kept := d.user.skips[:0]
	for _, s := range d.user.skips {
		if s.dev == d || since == "" || from < s.upTo || d.skipped >= s.upTo {
			kept = append(kept, s)
		}
	}
	d.user.skips = kept
	for _, p := range d.pending {
		if p.NextBatch == since {
			for _, e := range p.carried {
				if p.unknown[e.room] {
					continue
				}
				h.rooms[e.room].conf[e.idx] = true
				if e.txnDev == d && e.txnConf == 0 {
					e.txnConf = h.w.k.now()
				}
				if e.typ == "m.room.member" && *e.stateKey == d.user.id {
					h.rooms[e.room].ownConf[e.idx] = h.seq
				}
			}
		}
	}
	d.pending = nil
}

// skip is a first poll of a device without rooms, which leaves the user's rooms
// to the pollers of other devices.
type skip struct {
	dev    *hsDevice
	upTo   int
	others map[*hsDevice]string // devices which had synced, and the tokens used
}

func (h *HS) skipRooms(d *hsDevice, upTo int) {
	s := &skip{dev: d, upTo: upTo, others: map[*hsDevice]string{}}
	for _, o := range d.user.devs {
		if o != d && o.synced == h.w.crashes+1 {
			s.others[o] = o.polledTok
		}
	}
	d.skipped = upTo
	d.user.skips = append(d.user.skips, s)
}

// skipFinding: rooms were left to the poller of a device which was logged out
// before it got as far (known finding skipped-rooms).
func (u *hsUser) skipFinding() bool {
	for _, s := range u.skips {
		for o, tok := range s.others {
			if o.revoked(tok) {
				return true
			}
		}
	}
	return false
}

func (h *HS) procDied(d *hsDevice) { d.pending = nil; d.waiting = 0; d.toks = nil }

// delivered records that a response is being handed to the proxy.
func (h *HS) delivered(d *hsDevice, res *syncResp) {
	for i, id := range res.typing {
		r := h.rooms[id]
		if r.typSeq <= res.typSeq {
			r.typSent = r.typSeq
			r.typEpoch = h.w.crashes
		}
		if r.typGiven == nil {
			r.typGiven = map[*hsDevice][]typGiven{}
		}
		r.typGiven[d] = append(r.typGiven[d], res.typSets[i])
	}
	inState := map[string][]*hsEvent{}
	for _, e := range res.carried {
		if c, ok := res.chunks[e.room]; ok && (e.idx < c[0] || e.idx >= c[1]) {
			inState[e.room] = append(inState[e.room], e)
		}
	}
	for _, id := range sortedKeys(res.chunks) {
		r, c := h.rooms[id], res.chunks[id]
		s, e := c[0], c[1]
		if !r.conf[0] {
			// events of a room whose creation the proxy never saw are ignored
			create := false
			for _, ev := range res.carried {
				create = create || ev.room == id && ev.idx == 0
			}
			if !create {
				if res.unknown == nil {
					res.unknown = map[string]bool{}
				}
				res.unknown[id] = true
			}
		}
		if r.known && s < e {
			newer := false
			for y := range r.maybe {
				newer = newer || y >= e
			}
			for y := range r.conf {
				newer = newer || y >= e
			}
			for x := s; x < e; x++ {
				if newer && !r.conf[x] {
					r.markRacy(h, fmt.Sprintf("chunk [%d,%d) handed over after newer events, %d not confirmed", s, e, x))
				}
			}
			// another response still in flight may be processed after this one
			for _, o := range h.devices() {
				for _, p := range o.pending {
					pc, ok := p.chunks[id]
					if !ok || o == d {
						continue
					}
					for x := pc[0]; x < pc[1] && x < s; x++ {
						if !r.conf[x] && pc[1] <= s {
							r.markRacy(h, fmt.Sprintf("chunk [%d,%d) skips %d, in flight for %s/%s", s, e, x, o.user.id, o.id))
						}
					}
					// the state block of either may be stored before the timeline of the other,
					// whose events before the state event are then taken for old ones
					for _, st := range inState[id] {
						if !r.conf[st.idx] && r.firstNew(pc) < st.idx && st.idx < pc[1] {
							r.markRacy(h, fmt.Sprintf("state block carries %s, in flight for %s/%s", st.id, o.user.id, o.id))
						}
					}
					for _, st := range p.carried {
						if st.room == id && (st.idx < pc[0] || st.idx >= pc[1]) && !r.conf[st.idx] && r.firstNew(c) < st.idx && st.idx < e {
							r.markRacy(h, fmt.Sprintf("%s of chunk [%d,%d) is in a state block in flight for %s/%s", st.id, s, e, o.user.id, o.id))
						}
					}
				}
			}
			for _, st := range inState[id] {
				if r.conf[st.idx] {
					continue
				}
				for y := st.idx + 1; y < len(r.events); y++ {
					if o := r.events[y]; o.isState() && o.key() == st.key() && (r.conf[y] || r.maybe[y]) {
						r.markRacy(h, fmt.Sprintf("state block carries %s, older than %s", st.id, o.id))
					}
				}
			}
		}
		if r.known && s < e {
			// state which is skipped and not carried by the state block either, e.g.
			// because the user has only just been in the room
			carried := map[string]bool{}
			for _, st := range inState[id] {
				carried[st.id] = true
			}
			seen := map[string]bool{}
			for x := s - 1; x >= 0; x-- {
				if o := r.events[x]; o.isState() && !seen[o.key()] {
					seen[o.key()] = true
					if !r.conf[x] && !carried[o.id] {
						r.markRacy(h, fmt.Sprintf("chunk [%d,%d) skips state event %s", s, e, o.id))
					}
				}
			}
		}
		for x := s; x < e; x++ {
			r.inTL[x] = true
			if ev := r.events[x]; ev.given == 0 {
				ev.given = h.w.k.now()
			}
		}
		for x := 0; x < s; x++ {
			if !r.conf[x] {
				r.gap[x] = true
				if t := h.evs[r.events[x].redacts]; t != nil && t.isState() && r.known {
					r.markRacy(h, fmt.Sprintf("redaction %s skipped", r.events[x].id))
				}
			}
		}
		if res.limited[id] && s < e && !r.conf[s] {
			r.cut[s] = true
		}
		if r.known && len(inState[id]) > 0 {
			r.invalidated = true
		}
		if s < e && !res.unknown[id] {
			r.known = true
		}
	}
	for _, e := range res.carried {
		h.rooms[e.room].maybe[e.idx] = true
	}
	h.staleLeaves(d, res)
	for _, t := range res.td {
		t.given++
		if t.givenAt == 0 {
			t.givenAt = h.w.k.now()
		}
	}
	if d.firstAt == 0 {
		d.firstAt = h.w.k.now()
	}
	if res.initial {
		// an initial sync never reports device list changes, so what happened
		// before the latest one is not owed to the client
		d.firstPoll = res.upTo
	}
	d.pending = append(d.pending, res)
}

// staleLeaves: a response which still tells of a user's departure can be processed
// after another one which already told of their return (invite or join), and one
// which still tells of their invite after another one which told what became of it.
func (h *HS) staleLeaves(d *hsDevice, res *syncResp) {
	note := func(r *hsRoom, user string, idx int) {
		if idx > r.told[user] {
			r.told[user] = idx
		}
	}
	for id := range res.Rooms.Invite {
		r := h.rooms[id]
		if e := r.lastMember(d.user.id, r.idxAtSeq(res.upTo)); e != nil {
			note(r, d.user.id, e.idx)
		}
	}
	for _, e := range res.carried {
		if e.typ == "m.room.member" && (e.membership() == "join" || e.membership() == "invite") {
			note(h.rooms[e.room], *e.stateKey, e.idx)
		}
		if r := h.rooms[e.room]; e.typ == "m.room.member" && e.idx > r.toldAny[*e.stateKey] {
			r.toldAny[*e.stateKey] = e.idx
		}
	}
	check := func(o *hsDevice, p *syncResp) {
		for id := range p.Rooms.Invite {
			r := h.rooms[id]
			if e := r.lastMember(o.user.id, r.idxAtSeq(p.upTo)); e != nil && e.idx < r.toldAny[o.user.id] && !r.staleLeave[o.user.id] {
				r.staleLeave[o.user.id] = true
				h.w.k.probe["stale_invite"]++
			}
		}
		for _, e := range p.carried {
			if e.typ == "m.room.member" && e.membership() != "join" && e.membership() != "invite" {
				if r := h.rooms[e.room]; e.idx < r.told[*e.stateKey] && !r.staleLeave[*e.stateKey] {
					r.staleLeave[*e.stateKey] = true
					h.w.k.probe["stale_leave"]++
				}
			}
		}
	}
	check(d, res)
	for _, o := range h.devices() {
		for _, p := range o.pending {
			check(o, p)
		}
	}
}

// firstNew is the first event of a chunk which no acknowledged response carried.
func (r *hsRoom) firstNew(c [2]int) int {
	for x := c[0]; x < c[1]; x++ {
		if !r.conf[x] {
			return x
		}
	}
	return c[1]
}

func (r *hsRoom) markRacy(h *HS, why string) {
	if r.racy == "" {
		r.racy = why
		h.w.k.probe["racy_room"]++
		h.w.k.logf("model: room %s: %s", r.id, why)
	}
}

type hsEvent struct {
	id, typ, sender, room string
	stateKey              *string
	content               map[string]interface{}
	redacted              bool
	redactSeq             int
	redacts               string
	ts                    int64
	seq                   int
	idx                   int // position in the room
	txn                   string
	txnDev                *hsDevice
	given                 time.Duration // first handed to the proxy in a timeline
	txnConf               time.Duration // when the sending device's poller had processed it
	marker                string        // unique content marker
}

func (e *hsEvent) isState() bool { return e.stateKey != nil }
func (e *hsEvent) key() string {
	if e.stateKey == nil {
		return ""
	}
	return e.typ + "\x1f" + *e.stateKey
}

type receipt struct {
	seq                        int
	user, eventID, typ, thread string
	ts                         int64
}

type hsRoom struct {
	id       string
	typ      string
	events   []*hsEvent
	typing   []string
	typSeq   int
	receipts []*receipt // history, newest last
	enc      bool
	pred     string

	// What the proxy has been given, by event index. conf: part of a response the
	// proxy has acknowledged by polling on from it; maybe: part of a response whose
	// processing cannot be known (in flight, or cut short by a fault); gap: skipped
	// by a limited timeline before being confirmed, so it may legitimately be absent.
	conf, maybe, gap map[int]bool
	cut              map[int]bool // first event of a limited timeline: snapshots stop there
	inTL             map[int]bool // handed over in a timeline, not only in a state block
	ownConf          map[int]int  // own membership events -> when their user's poller had processed them
	typSent          int          // newest typing change handed over
	typEpoch         int          // by which process
	typGiven         map[*hsDevice][]typGiven
	told             map[string]int  // user -> latest join or invite of theirs the proxy was told of
	toldAny          map[string]int  // user -> latest membership event of theirs the proxy was told of
	staleLeave       map[string]bool // user -> an older departure may be processed after that
	racy             string          // a stale chunk may have been processed after newer events
	known            bool
	invalidated      bool // a state block replaced the proxy's view
	stateRedacted    bool
}

func newHS(w *World) *HS {
	return &HS{w: w, seq: 1, rooms: map[string]*hsRoom{}, users: map[string]*hsUser{}, tok: map[string]*hsDevice{}, evs: map[string]*hsEvent{}, byN: map[int]*hsEvent{}}
}

func (h *HS) bump() int { h.seq++; return h.seq }

func (h *HS) addUser(id string, local bool) *hsUser {
	u := &hsUser{id: id, local: local, global: map[string]*adata{}, room: map[string]map[string]*adata{}, unread: map[string]*unread{}, devLeft: map[string]int{}, everIgnored: map[string]bool{}, ignored: map[string]bool{}, direct: map[string]bool{}, directWith: map[string]string{}, everDirect: map[string]bool{}, devChanged: map[string]int{}}
	h.users[id] = u
	h.uord = append(h.uord, id)
	return u
}

func (h *HS) addDevice(u *hsUser, id string) *hsDevice {
	d := &hsDevice{user: u, id: id, token: "tok_" + u.id[1:strings.Index(u.id, ":")] + "_" + id + "_0", otk: 50, fallback: []string{"signed_curve25519"}, firstPoll: -1, dead: map[string]bool{}, tdEver: map[string]bool{}, changedSeen: map[string]int{}, leftSeen: map[string]int{}}
	u.devs = append(u.devs, d)
	h.tok[d.token] = d
	return d
}

// rotate gives the device a new access token; the old one stays valid until revoked.
func (h *HS) rotate(d *hsDevice) {
	d.oldToks = append(d.oldToks, d.token)
	d.token = fmt.Sprintf("tok_%s_%s_%d", d.user.id[1:strings.Index(d.user.id, ":")], d.id, len(d.oldToks))
	h.tok[d.token] = d
}

func (r *hsRoom) stateAt(idx int) map[string]*hsEvent { // state after events[0..idx)
	m := map[string]*hsEvent{}
	for i := 0; i < idx && i < len(r.events); i++ {
		if e := r.events[i]; e.isState() {
			m[e.key()] = e
		}
	}
	return m
}
func (r *hsRoom) state() map[string]*hsEvent { return r.stateAt(len(r.events)) }

func (r *hsRoom) get(typ, key string) *hsEvent { return r.state()[typ+"\x1f"+key] }

func (r *hsRoom) idxAtSeq(seq int) int { // number of events with seq <= seq
	return sort.Search(len(r.events), func(i int) bool { return r.events[i].seq > seq })
}

func (r *hsRoom) memberAt(user string, idx int) string {
	for i := idx - 1; i >= 0; i-- {
		if e := r.events[i]; e.typ == "m.room.member" && e.stateKey != nil && *e.stateKey == user {
			return e.membership()
		}
	}
	return ""
}
func (r *hsRoom) member(user string) string { return r.memberAt(user, len(r.events)) }

func (e *hsEvent) membership() string {
	s, _ := e.content["membership"].(string)
	return s
}

func (r *hsRoom) joined() []string { return r.withMembership("join") }
func (r *hsRoom) withMembership(m string) []string {
	var out []string
	st := r.state()
	for _, e := range st {
		if e.typ == "m.room.member" && e.membership() == m {
			out = append(out, *e.stateKey)
		}
	}
	sort.Strings(out)
	return out
}

func (h *HS) nextTS() int64 {
	return h.w.k.t0.UnixMilli() + h.w.k.now().Milliseconds() + int64(h.nev) // unique, increasing
}

func (h *HS) newRoom(typ string) *hsRoom {
	r := &hsRoom{id: fmt.Sprintf("!r%d:hs", len(h.order)), typ: typ, conf: map[int]bool{}, maybe: map[int]bool{}, inTL: map[int]bool{}, ownConf: map[int]int{}, toldAny: map[string]int{}, gap: map[int]bool{}, cut: map[int]bool{}, told: map[string]int{}, staleLeave: map[string]bool{}}
	h.rooms[r.id] = r
	h.order = append(h.order, r.id)
	return r
}

// send appends an event to the room.
func (h *HS) send(r *hsRoom, sender, typ string, stateKey *string, content map[string]interface{}) *hsEvent {
	h.nev++
	e := &hsEvent{id: fmt.Sprintf("$e%d", h.nev), typ: typ, sender: sender, room: r.id, stateKey: stateKey, content: content, ts: h.nextTS() + h.w.skew(), seq: h.bump(), idx: len(r.events)}
	if h.w.txnNext != "" {
		e.txn, e.txnDev = h.w.txnNext, h.w.txnNextDev
	}
	e.marker = "mk" + strconv.Itoa(h.nev) + "k"
	if content != nil {
		content["marker"] = e.marker
	}
	r.events = append(r.events, e)
	h.evs[e.id] = e
	h.byN[h.nev] = e
	if typ == "m.room.encryption" {
		r.enc = true
	}
	if typ == "m.room.member" && stateKey != nil {
		u := h.users[*stateKey]
		if u != nil && e.membership() != "join" {
			delete(u.unread, r.id)
		}
	}
	if typ == "m.room.message" || typ == "m.room.encrypted" {
		for _, id := range r.joined() {
			u := h.users[id]
			if u == nil || id == sender || !u.local {
				continue
			}
			ur := u.unread[r.id]
			if ur == nil {
				ur = &unread{}
				u.unread[r.id] = ur
			}
			ur.seq = e.seq
			ur.notif++
			if hl, _ := content["hl"].(bool); hl {
				ur.high++
			}
		}
	}
	h.w.k.logf("hs: %s %s %s in %s by %s seq=%d", e.id, typ, strv(stateKey), r.id, sender, e.seq)
	h.w.hsChanged()
	return e
}

func strv(s *string) string {
	if s == nil {
		return "-"
	}
	return *s
}

func sk(s string) *string { return &s }

func (h *HS) redact(r *hsRoom, sender string, target *hsEvent) *hsEvent {
	if target.redacted {
		return nil
	}
	e := h.send(r, sender, "m.room.redaction", nil, map[string]interface{}{})
	e.redacts = target.id
	target.redacted = true
	target.redactSeq = e.seq
	if target.isState() {
		r.stateRedacted = true
	}
	// redaction algorithm, for the event types we generate
	keep := map[string]interface{}{}
	switch target.typ {
	case "m.room.member":
		keep["membership"] = target.content["membership"]
	case "m.room.create":
		keep = target.content
	}
	target.content = keep
	return e
}

// raw renders the event as the homeserver would send it to the given device.
var prevMarkRE = regexp.MustCompile(`mk([0-9]+)k`)

func (h *HS) raw(e *hsEvent, d *hsDevice) json.RawMessage {
	m := map[string]interface{}{
		"event_id": e.id, "type": e.typ, "sender": e.sender, "content": e.content, "origin_server_ts": e.ts,
	}
	if e.stateKey != nil {
		m["state_key"] = *e.stateKey
	}
	uns := map[string]interface{}{}
	if e.redacts != "" {
		m["redacts"] = e.redacts
	}
	if e.txn != "" && e.txnDev == d && d != nil {
		uns["transaction_id"] = e.txn
	}
	if e.stateKey != nil {
		if pe := h.rooms[e.room].stateAt(e.idx)[e.key()]; pe != nil {
			// content markers are renamed so that prev_content is not mistaken for the event itself
			b, _ := json.Marshal(pe.content)
			uns["prev_content"] = json.RawMessage(prevMarkRE.ReplaceAll(b, []byte("pk${1}k")))
			uns["replaces_state"] = pe.id
		}
	}
	if len(uns) > 0 {
		m["unsigned"] = uns
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func (h *HS) stripped(e *hsEvent) json.RawMessage {
	m := map[string]interface{}{"type": e.typ, "sender": e.sender, "content": e.content, "state_key": *e.stateKey}
	b, _ := json.Marshal(m)
	return b
}

func (h *HS) setAccountData(u *hsUser, room, typ string, content string) {
	a := &adata{seq: h.bump(), typ: typ, content: content}
	if room == "" {
		u.global[typ] = a
	} else {
		if u.room[room] == nil {
			u.room[room] = map[string]*adata{}
		}
		u.room[room][typ] = a
	}
	h.w.k.logf("hs: account data %s %q %s seq=%d", u.id, room, typ, a.seq)
	h.w.hsChanged()
}

// keyReq is a room key request and the messages it was sent in, per device.
type keyReq struct {
	id   string
	sent []*toDev
	devs []*hsDevice
}

func (h *HS) sendToDevice(d *hsDevice, typ string) *toDev {
	s := h.bump()
	t := &toDev{seq: s, id: fmt.Sprintf("td%d", s)}
	t.json = fmt.Sprintf(`{"type":%q,"sender":"@remote0:hs","content":{"tdid":%q}}`, typ, t.id)
	h.putToDevice(d, t)
	return t
}

// keyRequest sends a room key request (or its withdrawal) to one device.
func (h *HS) keyRequest(d *hsDevice, reqID string, of *toDev) *toDev {
	s := h.bump()
	t := &toDev{seq: s, id: fmt.Sprintf("td%d", s), req: of}
	action := "request"
	if of != nil {
		action = "request_cancellation"
		of.gone = t
	}
	t.json = fmt.Sprintf(`{"type":"m.room_key_request","sender":"@remote0:hs","content":{"tdid":%q,"action":%q,"request_id":%q,"requesting_device_id":"RD"}}`, t.id, action, reqID)
	h.putToDevice(d, t)
	return t
}

func (h *HS) putToDevice(d *hsDevice, t *toDev) {
	d.inbox = append(d.inbox, t)
	h.w.k.logf("hs: to-device %s -> %s/%s %s", t.id, d.user.id, d.id, t.json)
	h.w.hsChanged()
}

func (h *HS) shareRoom(a, b string) bool {
	for _, id := range h.order {
		r := h.rooms[id]
		if r.member(a) == "join" && r.member(b) == "join" {
			return true
		}
	}
	return false
}

// deviceListChange records that u's devices changed, for everyone entitled to know.
func (h *HS) deviceListChange(u *hsUser) {
	s := h.bump()
	u.devList = s
	for _, id := range h.uord {
		if v := h.users[id]; v.local && (v == u || h.shareEnc(id, u.id)) {
			v.devChanged[u.id] = s
			delete(v.devLeft, u.id)
		}
	}
	h.w.k.logf("hs: device list change %s seq=%d", u.id, s)
	h.w.hsChanged()
}

type typGiven struct {
	seq int
	set string
}

func typSet(us []string) string {
	us = append([]string{}, us...)
	sort.Strings(us)
	return strings.Join(us, ",")
}

func (h *HS) setTyping(r *hsRoom, users []string) {
	r.typing = users
	r.typSeq = h.bump()
	h.w.k.logf("hs: typing %s %v", r.id, users)
	h.w.hsChanged()
}

func (h *HS) addReceipt(r *hsRoom, user, eventID, typ, thread string) {
	rc := &receipt{seq: h.bump(), user: user, eventID: eventID, typ: typ, thread: thread, ts: h.nextTS()}
	r.receipts = append(r.receipts, rc)
	if u := h.users[user]; u != nil && u.local {
		if ur := u.unread[r.id]; ur != nil && thread == "" {
			ur.notif, ur.high, ur.seq = 0, 0, rc.seq
		}
	}
	h.w.k.logf("hs: receipt %s %s %s in %s", user, typ, eventID, r.id)
	h.w.hsChanged()
}

// ---- /sync ----

type syncRoomJoin struct {
	State     evList      `json:"state"`
	Timeline  tlList      `json:"timeline"`
	Ephemeral evList      `json:"ephemeral"`
	Account   evList      `json:"account_data"`
	Unread    *unreadJSON `json:"unread_notifications,omitempty"`
}
type unreadJSON struct {
	H int `json:"highlight_count"`
	N int `json:"notification_count"`
}
type evList struct {
	Events []json.RawMessage `json:"events"`
}
type tlList struct {
	Events    []json.RawMessage `json:"events"`
	Limited   bool              `json:"limited"`
	PrevBatch string            `json:"prev_batch,omitempty"`
}
type syncResp struct {
	NextBatch string `json:"next_batch"`
	Account   evList `json:"account_data"`
	Rooms     struct {
		Join   map[string]*syncRoomJoin          `json:"join"`
		Invite map[string]map[string]evList      `json:"invite"`
		Leave  map[string]map[string]interface{} `json:"leave"`
	} `json:"rooms"`
	ToDevice evList `json:"to_device"`
	DevLists struct {
		Changed []string `json:"changed,omitempty"`
		Left    []string `json:"left,omitempty"`
	} `json:"device_lists"`
	OTK      map[string]int `json:"device_one_time_keys_count"`
	Fallback []string       `json:"device_unused_fallback_key_types"`

	empty   bool
	typing  []string
	typSets []typGiven
	typSeq  int
	initial bool
	// model bookkeeping: what this response carries
	carried []*hsEvent
	unknown map[string]bool // rooms which may not be known to the proxy yet
	upTo    int
	td      []*toDev
	limited map[string]bool
	changed []string
	chunks  map[string][2]int // room -> [start,end) of the timeline carried
}

// Stream tokens have two components, as Synapse's do: the main stream position
// and the to-device stream position.
func parseSince(s string) (main, td int) {
	if s == "" {
		return 0, 0
	}
	if n, err := fmt.Sscanf(s, "s%d_%d", &main, &td); n != 2 || err != nil {
		panic("bad since token sent to the homeserver: " + s)
	}
	return main, td
}

// compute builds the /sync response for a device.
func (h *HS) compute(d *hsDevice, since string, limit int, noRooms bool) *syncResp {
	from, tdFrom := parseSince(since)
	u := d.user
	res := &syncResp{upTo: h.seq, limited: map[string]bool{}, chunks: map[string][2]int{}, empty: true, initial: since == ""}
	res.Account.Events = []json.RawMessage{}
	res.ToDevice.Events = []json.RawMessage{}
	res.Rooms.Join = map[string]*syncRoomJoin{}
	res.Rooms.Invite = map[string]map[string]evList{}
	res.Rooms.Leave = map[string]map[string]interface{}{}
	res.OTK = map[string]int{"signed_curve25519": d.otk}
	res.Fallback = append([]string{}, d.fallback...)
	if d.otkSeq > from {
		res.empty = false
	}
	for _, t := range sortedKeys(u.global) {
		if a := u.global[t]; a.seq > from {
			res.Account.Events = append(res.Account.Events, acctJSON(a))
			res.empty = false
		}
	}
	tdTo := h.seq
	for _, t := range d.inbox {
		if t.seq <= tdFrom {
			t.acked = true // the homeserver forgets messages the client acknowledged
			continue
		}
		if t.acked {
			continue // deleted earlier; an old since token does not bring it back
		}
		if len(res.td) >= h.w.cfg.HSToDeviceLimit {
			tdTo = res.td[len(res.td)-1].seq
			break
		}
		res.ToDevice.Events = append(res.ToDevice.Events, json.RawMessage(t.json))
		res.td = append(res.td, t)
		res.empty = false
	}
	res.NextBatch = fmt.Sprintf("s%d_%d", h.seq, tdTo)
	res.typSeq = h.seq
	if !noRooms {
		h.roomsPart(d, from, h.seq, limit, res)
		if h.w.cfg.BadRoom && len(res.Rooms.Join) > 0 {
			// a room which the homeserver sends without its create event: it must be skipped, and nothing else
			bad := &syncRoomJoin{}
			bad.State.Events = []json.RawMessage{json.RawMessage(fmt.Sprintf(`{"type":"m.room.member","state_key":%q,"sender":%q,"event_id":"$bad_%s_%d","origin_server_ts":946684800000,"content":{"membership":"join"}}`, u.id, u.id, d.id, h.seq))}
			bad.Timeline.Events = []json.RawMessage{json.RawMessage(fmt.Sprintf(`{"type":"m.room.message","sender":%q,"event_id":"$badm_%s_%d","origin_server_ts":946684800000,"content":{"body":"bad"}}`, u.id, d.id, h.seq))}
			bad.Ephemeral.Events = []json.RawMessage{}
			bad.Account.Events = []json.RawMessage{}
			res.Rooms.Join["!bad:hs"] = bad
		}
	}
	h.devLists(u, from, h.seq, res)
	return res
}

func acctJSON(a *adata) json.RawMessage {
	return json.RawMessage(fmt.Sprintf(`{"type":%q,"content":%s}`, a.typ, a.content))
}

func (h *HS) devLists(u *hsUser, from, to int, res *syncResp) {
	if from == 0 {
		return
	}
	for _, id := range sortedKeys(u.devChanged) {
		if q := u.devChanged[id]; q > from && q <= to {
			res.DevLists.Changed = append(res.DevLists.Changed, id)
			res.changed = append(res.changed, id)
			res.empty = false
		}
	}
	for _, id := range sortedKeys(u.devLeft) {
		if q := u.devLeft[id]; q > from && q <= to {
			res.DevLists.Left = append(res.DevLists.Left, id)
			res.empty = false
		}
	}
}

func (h *HS) roomsPart(d *hsDevice, from, to, limit int, res *syncResp) {
	u := d.user
	for _, id := range h.order {
		r := h.rooms[id]
		end := r.idxAtSeq(to)
		start := r.idxAtSeq(from)
		now := r.memberAt(u.id, end)
		was := ""
		if from > 0 {
			was = r.memberAt(u.id, start)
		}
		switch {
		case now == "join":
			jr := &syncRoomJoin{State: evList{[]json.RawMessage{}}, Ephemeral: evList{[]json.RawMessage{}}, Account: evList{[]json.RawMessage{}}}
			include := false
			tlStart := start
			fresh := was != "join" // initial sync or newly joined
			// left and rejoined inside the window counts as newly joined
			for i := start; i < end && !fresh; i++ {
				if e := r.events[i]; e.typ == "m.room.member" && *e.stateKey == u.id && e.membership() != "join" {
					fresh = true
				}
			}
			if fresh {
				include = true
				tlStart = end - limit
				if tlStart < 0 {
					tlStart = 0
				}
				if tlStart > 0 {
					jr.Timeline.Limited = true
				}
				for _, e := range h.stateList(r.stateAt(tlStart)) {
					jr.State.Events = append(jr.State.Events, h.raw(e, d))
					res.carried = append(res.carried, e)
				}
			} else if end-start > limit {
				tlStart = end - limit
				jr.Timeline.Limited = true
				a, b := r.stateAt(start), r.stateAt(tlStart)
				for _, e := range h.stateList(b) {
					if a[e.key()] != e {
						jr.State.Events = append(jr.State.Events, h.raw(e, d))
						res.carried = append(res.carried, e)
					}
				}
			}
			if jr.Timeline.Limited {
				jr.Timeline.PrevBatch = fmt.Sprintf("p%d_%s", tlStart, r.id[1:strings.Index(r.id, ":")])
				res.limited[id] = true
			} else if tlStart < end {
				jr.Timeline.PrevBatch = fmt.Sprintf("p%d_%s", tlStart, r.id[1:strings.Index(r.id, ":")])
			}
			jr.Timeline.Events = []json.RawMessage{}
			res.chunks[id] = [2]int{tlStart, end}
			for i := tlStart; i < end; i++ {
				jr.Timeline.Events = append(jr.Timeline.Events, h.raw(r.events[i], d))
				res.carried = append(res.carried, r.events[i])
				include = true
			}
			efrom := from
			if fresh {
				efrom = 0
			}
			if r.typSeq > efrom {
				if len(r.typing) > 0 || efrom > 0 {
					b, _ := json.Marshal(map[string]interface{}{"type": "m.typing", "content": map[string]interface{}{"user_ids": append([]string{}, r.typing...)}})
					jr.Ephemeral.Events = append(jr.Ephemeral.Events, b)
					include = true
					res.typing = append(res.typing, id)
					res.typSets = append(res.typSets, typGiven{r.typSeq, typSet(r.typing)})
				}
			}
			if ev := h.receiptEvent(r, u.id, efrom); ev != nil {
				jr.Ephemeral.Events = append(jr.Ephemeral.Events, ev)
				include = true
			}
			for _, t := range sortedKeys(u.room[id]) {
				if a := u.room[id][t]; a.seq > efrom {
					jr.Account.Events = append(jr.Account.Events, acctJSON(a))
					include = true
				}
			}
			ur := u.unread[id]
			if ur != nil && ur.seq > from {
				include = true
			}
			if include {
				c := &unreadJSON{}
				if ur != nil {
					c.H, c.N = ur.high, ur.notif
				}
				jr.Unread = c
				res.Rooms.Join[id] = jr
				res.empty = false
			}
		case now == "invite" && (from == 0 || h.memberChangedIn(r, u.id, start, end)):
			var st []json.RawMessage
			full := r.stateAt(end)
			for _, t := range []string{"m.room.create", "m.room.join_rules", "m.room.canonical_alias", "m.room.avatar", "m.room.encryption", "m.room.name", "m.room.topic"} {
				if e := full[t+"\x1f"]; e != nil {
					st = append(st, h.stripped(e))
				}
			}
			me := full["m.room.member\x1f"+u.id]
			if inv := full["m.room.member\x1f"+me.sender]; inv != nil && me.sender != u.id {
				st = append(st, h.stripped(inv))
			}
			st = append(st, h.stripped(me))
			res.Rooms.Invite[id] = map[string]evList{"invite_state": {st}}
			res.empty = false
		case (now == "leave" || now == "ban") && from > 0 && h.memberChangedIn(r, u.id, start, end):
			// timeline up to and including the leave
			leaveIdx := -1
			joinedInWindow := was == "join"
			for i := start; i < end; i++ {
				if e := r.events[i]; e.typ == "m.room.member" && *e.stateKey == u.id {
					leaveIdx = i
					if e.membership() == "join" {
						joinedInWindow = true
					}
				}
			}
			tl := tlList{Events: []json.RawMessage{}}
			if joinedInWindow {
				s := start
				if was != "join" {
					s = leaveIdx // keep it small: only the leave itself
				}
				if leaveIdx+1-s > limit {
					s = leaveIdx + 1 - limit
					tl.Limited = true
					res.limited[id] = true
				}
				for i := s; i <= leaveIdx; i++ {
					tl.Events = append(tl.Events, h.raw(r.events[i], d))
					res.carried = append(res.carried, r.events[i])
				}
				if s > start {
					tl.Limited = true
					res.limited[id] = true
				}
				if tl.Limited {
					tl.PrevBatch = fmt.Sprintf("p%d_%s", s, r.id[1:strings.Index(r.id, ":")])
				}
			} else {
				tl.Events = append(tl.Events, h.raw(r.events[leaveIdx], d))
				res.carried = append(res.carried, r.events[leaveIdx])
			}
			res.chunks[id] = [2]int{leaveIdx + 1 - len(tl.Events), leaveIdx + 1}
			res.Rooms.Leave[id] = map[string]interface{}{"timeline": tl, "state": evList{[]json.RawMessage{}}}
			res.empty = false
		}
	}
}

func (h *HS) memberChangedIn(r *hsRoom, user string, start, end int) bool {
	for i := start; i < end; i++ {
		if e := r.events[i]; e.typ == "m.room.member" && *e.stateKey == user {
			return true
		}
	}
	return false
}

// latestReceipts: newest receipt per (user, type, thread).
func (r *hsRoom) latestReceipts() []*receipt {
	last := map[string]*receipt{}
	for _, rc := range r.receipts {
		last[rc.user+"|"+rc.typ+"|"+rc.thread] = rc
	}
	var out []*receipt
	for _, rc := range r.receipts {
		if last[rc.user+"|"+rc.typ+"|"+rc.thread] == rc {
			out = append(out, rc)
		}
	}
	return out
}

func (h *HS) receiptEvent(r *hsRoom, viewer string, from int) json.RawMessage {
	content := map[string]map[string]map[string]map[string]interface{}{}
	for _, rc := range r.latestReceipts() {
		if rc.seq <= from || rc.typ == "m.read.private" && rc.user != viewer {
			continue
		}
		if content[rc.eventID] == nil {
			content[rc.eventID] = map[string]map[string]map[string]interface{}{}
		}
		if content[rc.eventID][rc.typ] == nil {
			content[rc.eventID][rc.typ] = map[string]map[string]interface{}{}
		}
		v := map[string]interface{}{"ts": rc.ts}
		if rc.thread != "" {
			v["thread_id"] = rc.thread
		}
		content[rc.eventID][rc.typ][rc.user] = v
	}
	if len(content) == 0 {
		return nil
	}
	b, _ := json.Marshal(map[string]interface{}{"type": "m.receipt", "content": content})
	return b
}

func (h *HS) stateList(m map[string]*hsEvent) []*hsEvent {
	out := make([]*hsEvent, 0, len(m))
	for _, e := range m {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].seq < out[j].seq })
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
