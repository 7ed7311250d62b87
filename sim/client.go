package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/matrix-org/sliding-sync/internal"
)

// ---- request parameters ----

type listSpec struct {
	Ranges  [][2]int        `json:"ranges"`
	Sort    []string        `json:"sort"`
	Filters json.RawMessage `json:"filters,omitempty"`
	State   [][2]string     `json:"required_state"`
	TL      int             `json:"timeline_limit"`
	Slow    *bool           `json:"slow_get_all_rooms,omitempty"`
	Bump    []string        `json:"bump_event_types,omitempty"`
	Heroes  *bool           `json:"include_heroes,omitempty"`
	Old     *subSpec        `json:"include_old_rooms,omitempty"`
}

// changes: the list as a client sends it which relies on the rest being remembered.
func (l *listSpec) changes(o *listSpec) map[string]interface{} {
	a, b := map[string]json.RawMessage{}, map[string]json.RawMessage{}
	for _, x := range []struct {
		l *listSpec
		m *map[string]json.RawMessage
	}{{l, &a}, {o, &b}} {
		raw, _ := json.Marshal(x.l)
		json.Unmarshal(raw, x.m)
	}
	out := map[string]interface{}{}
	for k, v := range a {
		if string(b[k]) != string(v) {
			out[k] = v
		}
	}
	return out
}

// over: what the list is once the request with this JSON is taken in, which is l unless
// requests were processed in another order than they were sent.
func (l *listSpec) over(o *listSpec, sent json.RawMessage) *listSpec {
	n := &listSpec{}
	if o != nil {
		raw, _ := json.Marshal(o)
		json.Unmarshal(raw, n)
	}
	x := &listSpec{}
	json.Unmarshal(sent, x)
	if x.Old != nil {
		n.Old = nil
	}
	json.Unmarshal(sent, n)
	a, _ := json.Marshal(n)
	b, _ := json.Marshal(l)
	if string(a) == string(b) {
		return l
	}
	return n
}

// slow: the list tracks every room and sends no operations after the first one
func (l *listSpec) slow() bool { return l.Slow != nil && *l.Slow }

func (l *listSpec) has(i int) bool {
	if l.slow() {
		return true
	}
	for _, r := range l.Ranges {
		if i >= r[0] && i <= r[1] {
			return true
		}
	}
	return false
}

type subSpec struct {
	State [][2]string `json:"required_state"`
	TL    int         `json:"timeline_limit"`
}

type params struct {
	lists map[string]*listSpec
	subs  map[string]*subSpec
}

func (p *params) clone() *params {
	q := &params{map[string]*listSpec{}, map[string]*subSpec{}}
	for k, v := range p.lists {
		q.lists[k] = v
	}
	for k, v := range p.subs {
		q.subs[k] = v
	}
	return q
}

// one request body: the parameters it carries (list and subscription specs are
// immutable once sent).
type sentReq struct {
	txn     string
	body    []byte
	lists   map[string]*listSpec
	raw     map[string]json.RawMessage // the lists as sent
	subs    map[string]*subSpec
	dels    []string
	unsubs  []string
	tdSince string
	n       int
	sent    time.Duration // first sent
	pos     string        // position of the response answering it
	done    bool          // the HTTP request got a response
	first   bool          // nothing the same but for its txn_id was sent before
}

// ---- what the client has been told ----

type listView struct {
	idx   map[int]string
	count int
	spec  *listSpec
}

type hero struct {
	ID   string `json:"user_id"`
	Name string `json:"displayname"`
}

type roomView struct {
	id              string
	heroes          []hero
	got             bool // initial data seen on this connection
	live            bool // continuously in view since then
	flip            bool // left a slow list by a filter as far as the homeserver knows
	name, avatar    string
	isDM            bool
	joined, invited int
	notif, high     int
	state           map[string]string // type \x1f key -> event ID
	first, last     int               // indices of the timeline held, -1 unknown
	invite          []json.RawMessage
	inviteSt        map[string]bool
	ts              int64
	tlLimit         int
	initN           int                // response number of the last initial data
	reqState        map[[2]string]bool // union of required_state in force since
	prevBatch       string
	initSeq         int
	again           bool // sent in full before
	tlChanged       bool
	mixed           bool // which required_state applies is not judged
}

type Client struct {
	w      *World
	n      int
	dev    *hsDevice
	tok    string
	connID string
	r      *prng
	fresh  bool // oracle client of the final phase
	e2ee   bool
	td     bool

	want     *params
	cur      *params // what the server had applied at the last response
	unconf   []*sentReq
	byTxn    map[string]*sentReq
	sentKeys map[string]bool
	deleted  map[string]bool // lists which were deleted
	nreq     int

	pos         string
	launches    map[string]int // how often each request was sent
	respHash    map[string]uint64
	nresp       int
	lists       map[string]*listView
	rooms       map[string]*roomView
	tdSince     string
	tdSeen      map[string]int
	tdMax       int
	tdAcked     int
	changedSeen map[string]int
	leftSeen    map[string]int
	otk         map[string]int
	fallback    []string
	gotFB       bool
	acct        map[string]string            // "room|type" -> content
	receipts    map[string]map[string]string // room -> user|type|thread -> event
	typing      map[string]string            // room -> sorted users
	gotTyping   map[string]bool
	gotAcct     bool

	closed      bool
	pauseTo     time.Time
	timeout     int
	think       int
	poke        chan string // "interrupt" | "abort"
	nextFault   string      // applied to the next exchange
	resets      int
	unauth      bool
	bogus       bool // uses a token the homeserver does not know
	inflight    bool
	inflightAt  time.Time
	askedAt     time.Duration // when the request being answered was sent
	lastOK      time.Time
	epoch       int // restarts at connection establishment
	lastReq     *sentReq
	slowChanged bool
	tlChanged   bool // the response at hand answers a request which changed a timeline limit
	fullCycles  int  // responses received since the last reset
	idleResp    int
	seqAtReset  int
	faultMark   int
	hasUnread   map[string]bool
	wantReset   bool
	nap         time.Duration // between requests
	slept       bool          // for longer than connections are kept
	out         []*launched
}

func (w *World) newClient(d *hsDevice, tok string) *Client {
	c := &Client{w: w, n: len(w.clients), dev: d, tok: tok, r: w.opR.sub(uint64(1000 + len(w.clients))),
		poke: make(chan string, 4), timeout: 10000, think: 20}
	c.connID = fmt.Sprintf("c%d", c.n)
	c.want = &params{map[string]*listSpec{}, map[string]*subSpec{}}
	c.tdSeen = map[string]int{}
	c.reset()
	c.deleted = map[string]bool{}
	w.clients = append(w.clients, c)
	return c
}

func (c *Client) reset() {
	c.pos = ""
	c.cur = &params{map[string]*listSpec{}, map[string]*subSpec{}}
	c.unconf = nil
	c.byTxn = map[string]*sentReq{}
	c.sentKeys = map[string]bool{}
	c.respHash = map[string]uint64{}
	c.launches = map[string]int{}
	c.lists = map[string]*listView{}
	c.rooms = map[string]*roomView{}
	c.changedSeen = map[string]int{}
	c.leftSeen = map[string]int{}
	c.acct = map[string]string{}
	c.receipts = map[string]map[string]string{}
	c.typing = map[string]string{}
	c.gotTyping = map[string]bool{}
	c.gotAcct = false
	c.otk = map[string]int{}
	c.fallback, c.gotFB = nil, false
	c.lastReq = nil
	c.fullCycles = 0
	c.hasUnread = map[string]bool{}
	c.epoch = c.w.crashes
	c.seqAtReset = c.w.hs.seq
}

func (c *Client) name() string { return fmt.Sprintf("client%d(%s/%s)", c.n, c.dev.user.id, c.dev.id) }

// build makes the next request body.
func (c *Client) build() *sentReq {
	c.nreq++
	q := &sentReq{txn: fmt.Sprintf("t%d_%d", c.n, c.nreq), lists: map[string]*listSpec{}, subs: map[string]*subSpec{}, n: c.nreq}
	dirtyL, dirtyS := map[string]bool{}, map[string]bool{}
	for _, u := range c.unconf {
		for k := range u.lists {
			dirtyL[k] = true
		}
		for _, k := range u.dels {
			dirtyL[k] = true
		}
		for k := range u.subs {
			dirtyS[k] = true
		}
		for _, k := range u.unsubs {
			dirtyS[k] = true
		}
	}
	for k, l := range c.want.lists {
		if c.cur.lists[k] != l || dirtyL[k] {
			q.lists[k] = l
		}
	}
	for k, s := range c.want.subs {
		if c.cur.subs[k] != s || dirtyS[k] {
			q.subs[k] = s
		}
	}
	gone := map[string]bool{}
	for k := range c.cur.subs {
		if c.want.subs[k] == nil {
			gone[k] = true
		}
	}
	for k := range dirtyS {
		if c.want.subs[k] == nil {
			gone[k] = true
		}
	}
	q.unsubs = sortedKeys(gone)
	body := map[string]interface{}{"txn_id": q.txn, "conn_id": c.connID}
	ls := map[string]interface{}{}
	for k, l := range q.lists {
		ls[k] = l
		if o := c.cur.lists[k]; o != nil && !dirtyL[k] && c.n%2 == 0 {
			ls[k] = l.changes(o)
		}
	}
	for k := range dirtyL {
		if c.want.lists[k] == nil {
			q.dels = append(q.dels, k)
		}
	}
	for k := range c.cur.lists {
		if c.want.lists[k] == nil && !dirtyL[k] {
			q.dels = append(q.dels, k)
		}
	}
	q.raw = map[string]json.RawMessage{}
	for k, l := range ls {
		q.raw[k], _ = json.Marshal(l)
	}
	sort.Strings(q.dels)
	for _, k := range q.dels {
		ls[k] = map[string]bool{"deleted": true}
	}
	if len(ls) > 0 {
		body["lists"] = ls
	}
	if len(q.subs) > 0 {
		body["room_subscriptions"] = q.subs
	}
	if len(q.unsubs) > 0 {
		body["unsubscribe_rooms"] = q.unsubs
	}
	ext := map[string]interface{}{}
	on := map[string]interface{}{"enabled": true}
	if c.pos == "" || c.r.p(0.1) {
		ext["account_data"] = on
		ext["receipts"] = on
		ext["typing"] = on
		if c.e2ee {
			ext["e2ee"] = on
		}
	}
	if c.td {
		q.tdSince = c.tdSince
		t := map[string]interface{}{"enabled": true, "limit": []int{1, 3, 100}[c.n%3]}
		if c.tdSince != "" {
			t["since"] = c.tdSince
		}
		ext["to_device"] = t
	}
	if len(ext) > 0 {
		body["extensions"] = ext
	}
	delete(body, "txn_id")
	key, _ := json.Marshal(body)
	q.first = !c.sentKeys[string(key)]
	c.sentKeys[string(key)] = true
	body["txn_id"] = q.txn
	q.body, _ = json.Marshal(body)
	c.unconf = append(c.unconf, q)
	c.byTxn[q.txn] = q
	return q
}

type httpResult struct {
	code int
	body []byte
	kind string // "ok", "lost", "crash", "abort", "interrupt", "timeout"
}

// post performs one HTTP exchange with the proxy in its own goroutine.
func (c *Client) post(tok, pos string, timeout int, body []byte, fault string) *httpResult {
	w := c.w
	if fault == "c_lostreq" {
		w.k.faultN["client_request_lost"]++
		w.k.logf("%s: request lost", c.name())
		sleepMS(c.r.rng(100, 3000))
		return &httpResult{kind: "lost"}
	}
	if !w.up {
		return &httpResult{kind: "crash"} // connection refused
	}
	crashCh := w.crashCh
	done := c.launch(tok, pos, timeout, body)
	if fault == "c_dup" && pos != "" {
		w.k.faultN["client_request_duplicated"]++
		if c.r.p(0.5) {
			sleepMS(c.r.n(50))
		}
		if w.up && w.crashCh == crashCh {
			c.launch(tok, pos, timeout, body)
		}
	}
	var abortT <-chan time.Time
	if fault == "c_abort" {
		abortT = time.After(time.Duration(c.r.n(400)) * time.Millisecond)
	}
	give := time.NewTimer(time.Duration(timeout)*time.Millisecond + 300*time.Second)
	defer give.Stop()
	for {
		select {
		case r := <-done.ch:
			if fault == "c_lostresp" {
				w.k.faultN["client_response_lost"]++
				w.k.logf("%s: response lost", c.name())
				return &httpResult{kind: "lost"}
			}
			return r
		case <-crashCh:
			return &httpResult{kind: "crash"}
		case <-abortT:
			w.k.faultN["client_abort"]++
			done.cancel()
			return &httpResult{kind: "abort"}
		case what := <-c.poke:
			if what == "interrupt" {
				w.k.faultN["client_interrupt"]++
				if c.r.p(0.5) {
					done.cancel()
				}
				return &httpResult{kind: "interrupt"}
			}
		case <-give.C:
			done.cancel()
			return &httpResult{kind: "timeout"}
		}
	}
}

// launch is World.launch, remembering the exchange until the handler returns.
func (c *Client) launch(tok, pos string, timeout int, body []byte) *launched {
	l := c.w.launch(tok, pos, timeout, body)
	c.launches[string(body)]++
	var out []*launched
	for _, o := range c.out {
		if !o.over && o.gen == c.w.k.curGen {
			out = append(out, o)
		}
	}
	c.out = append(out, l)
	return l
}

// drain waits until the proxy is done with every request this client gave up
// on. A client starting a new connection must not have an old request still in
// flight: positions are only unique within one connection.
func (c *Client) drain() {
	for !c.closed {
		n := 0
		for _, o := range c.out {
			if !o.over && o.gen == c.w.k.curGen {
				n++
			}
		}
		if n == 0 {
			return
		}
		sleepMS(20)
	}
}

type launched struct {
	over   bool
	gen    uint32
	ch     chan *httpResult
	cancel func()
}

// launch runs the proxy's HTTP handler for one request, as the HTTP server would.
func (w *World) launch(tok, pos string, timeout int, body []byte) *launched {
	l := &launched{ch: make(chan *httpResult, 1)}
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	gen := w.k.curGen
	l.gen = gen
	h := w.handler
	u := "/_matrix/client/unstable/org.matrix.msc3575/sync?timeout=" + strconv.Itoa(timeout)
	if pos != "" {
		u += "&pos=" + pos
	}
	go func() {
		rtSetGen(gen)
		rtSetTag(tagRequest)
		req := httptest.NewRequest("POST", u, bytes.NewReader(body))
		req.Header.Set("Authorization", "Bearer "+tok)
		req = req.WithContext(internal.RequestContext(ctx))
		rec := httptest.NewRecorder()
		func() {
			defer func() {
				if e := recover(); e != nil {
					w.k.logf("request handler panicked: %v", e)
					w.violate("panic", "request handler panic", "%v", e)
					rec = httptest.NewRecorder()
					rec.Code = 599
				}
			}()
			h.ServeHTTP(rec, req)
		}()
		cancel()
		l.over = true
		l.ch <- &httpResult{kind: "ok", code: rec.Code, body: rec.Body.Bytes()}
	}()
	return l
}

func sleepMS(n int) {
	if n > 0 {
		time.Sleep(time.Duration(n) * time.Millisecond)
	}
}

func (c *Client) waitUp() {
	for !c.closed && !c.w.up {
		sleepMS(50 + c.r.n(200))
	}
}

// loop is the client's main loop.
func (c *Client) loop() {
	w := c.w
	var q *sentReq
	for !c.closed {
		c.waitUp()
		for !c.closed && time.Now().Before(c.pauseTo) {
			if time.Until(c.pauseTo) > 2*time.Minute {
				sleepMS(1000)
			} else {
				sleepMS(20)
			}
		}
		if c.closed {
			return
		}
		if c.wantReset {
			c.wantReset = false
			c.reset()
			q = nil
		}
		if c.pos == "" {
			c.drain()
			c.waitUp()
		}
		if q == nil {
			q = c.build()
		}
		fault := c.nextFault
		c.nextFault = ""
		if w.faultsOff {
			fault = ""
		}
		to := c.timeout
		c.inflight, c.inflightAt = true, time.Now()
		if q.sent == 0 {
			q.sent = w.k.now()
		}
		c.faultMark = w.faultCount()
		tok := c.tok
		r := c.post(tok, c.pos, to, q.body, fault)
		c.inflight = false
		if c.closed {
			return
		}
		took := time.Since(c.inflightAt)
		clean := w.faultsOff && c.inflightAt.After(w.quietSince) && c.faultMark == w.faultCount()
		switch {
		case r.kind == "ok" && r.code == 200:
			if clean && took > time.Duration(to)*time.Millisecond+60*time.Second {
				w.violate("live", "request slower than its timeout", "%s: request took %v with a %d ms timeout and no faults", c.name(), took, to)
			}
			c.unauth = false
			if c.bogus {
				w.violate("auth", "unknown token accepted", "%s: a token the homeserver does not know got a response: %.200s", c.name(), r.body)
			}
			c.dev.served = true
			q.done = true
			c.onResponse(q, r.body)
			q = nil
			if c.nap > 0 {
				c.pauseTo = time.Now().Add(c.nap)
			}
		case r.kind == "ok":
			var e struct {
				Code string `json:"errcode"`
				Err  string `json:"error"`
			}
			json.Unmarshal(r.body, &e)
			w.k.logf("%s: HTTP %d %s %s pos=%s", c.name(), r.code, e.Code, e.Err, c.pos)
			w.stats[fmt.Sprintf("http_%d", r.code)]++
			switch {
			case r.code == 400 && e.Code == "M_UNKNOWN_POS":
				c.onUnknownPos(q)
				c.resets++
				c.reset()
				q = nil
			case r.code == 401:
				c.on401(tok)
				q = nil
				sleepMS(1000)
			default:
				// a request whose device was logged out meanwhile may be cut short in any way
				if (clean || w.faultCount() == 0) && !((c.dev.deleted || len(c.dev.dead) > 0) && strings.Contains(e.Err, "context canceled")) {
					w.violate("live", fmt.Sprintf("HTTP %d without faults", r.code), "%s: HTTP %d %s %s with no fault in progress", c.name(), r.code, e.Code, e.Err)
				}
				if r.code >= 500 && strings.Contains(e.Err, "panic:") {
					w.violate("panic", "request panic", "%s: HTTP %d: %s", c.name(), r.code, e.Err)
				}
				if c.r.p(0.5) {
					q = nil
				}
				sleepMS(200 + c.r.n(1000))
			}
		case r.kind == "timeout":
			if clean {
				w.violate("live", "request never completed", "%s: no response %v after a request with a %d ms timeout, no faults in progress", c.name(), took, to)
			}
			w.stats["client_timeout"]++
			q = nil
		default: // lost, crash, abort, interrupt
			if r.kind == "interrupt" || c.r.p(0.5) {
				q = nil // go on with a new body
			}
			if r.kind != "interrupt" {
				sleepMS(c.r.n(800))
			}
		}
		sleepMS(c.r.n(c.think + 1))
	}
}

// ---- responses ----

type respOp struct {
	Op      string   `json:"op"`
	Range   []int    `json:"range"`
	RoomIDs []string `json:"room_ids"`
	Index   *int     `json:"index"`
	RoomID  string   `json:"room_id"`
}

type respRoom struct {
	Name      *string           `json:"name"`
	Avatar    json.RawMessage   `json:"avatar"`
	Heroes    []hero            `json:"heroes"`
	State     []json.RawMessage `json:"required_state"`
	Timeline  []json.RawMessage `json:"timeline"`
	Invite    []json.RawMessage `json:"invite_state"`
	Notif     *int              `json:"notification_count"`
	High      *int              `json:"highlight_count"`
	Initial   bool              `json:"initial"`
	IsDM      *bool             `json:"is_dm"`
	Joined    *int              `json:"joined_count"`
	Invited   *int              `json:"invited_count"`
	PrevBatch string            `json:"prev_batch"`
	NumLive   int               `json:"num_live"`
	TS        int64             `json:"timestamp"`
}

type response struct {
	Lists map[string]struct {
		Ops   []respOp `json:"ops"`
		Count int      `json:"count"`
	} `json:"lists"`
	Rooms map[string]*respRoom `json:"rooms"`
	Ext   struct {
		ToDevice *struct {
			Next   string            `json:"next_batch"`
			Events []json.RawMessage `json:"events"`
		} `json:"to_device"`
		E2EE *struct {
			OTK     map[string]int `json:"device_one_time_keys_count"`
			Devices *struct {
				Changed []string `json:"changed"`
				Left    []string `json:"left"`
			} `json:"device_lists"`
			Fallback *[]string `json:"device_unused_fallback_key_types"`
		} `json:"e2ee"`
		Account *struct {
			Global []json.RawMessage            `json:"global"`
			Rooms  map[string][]json.RawMessage `json:"rooms"`
		} `json:"account_data"`
		Receipts *struct {
			Rooms map[string]json.RawMessage `json:"rooms"`
		} `json:"receipts"`
		Typing *struct {
			Rooms map[string]json.RawMessage `json:"rooms"`
		} `json:"typing"`
	} `json:"extensions"`
	Pos string `json:"pos"`
	Txn string `json:"txn_id"`
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// onResponse applies a 200 response. It reports whether the response answers q.
func (c *Client) onResponse(q *sentReq, raw []byte) bool {
	w := c.w
	var r response
	if err := json.Unmarshal(raw, &r); err != nil {
		w.violate("pos", "undecodable response", "%s: %v", c.name(), err)
		return true
	}
	w.stats["responses"]++
	if w.k.logOn {
		w.k.raw("    REQ %s", q.body)
	}
	w.k.logf("%s: pos %q -> %q txn=%s %d bytes h=%x", c.name(), c.pos, r.Pos, r.Txn, len(raw), hashBytes(raw))
	if w.k.logOn {
		w.k.raw("    %s", raw)
	}
	c.checkConfidential(raw)
	hsh := hashBytes(raw)
	if old, ok := c.respHash[r.Pos]; ok {
		if old != hsh {
			w.violate("pos", "retry answered differently", "%s: position %s delivered twice with different content", c.name(), r.Pos)
		}
		w.violate("pos", "position did not advance", "%s: asked from position %q, got position %q again", c.name(), c.pos, r.Pos)
		return true
	}
	c.respHash[r.Pos] = hsh
	ans := c.byTxn[r.Txn]
	if ans == nil {
		w.violate("pos", "unknown txn_id in response", "%s: response carries txn_id %q which this connection never sent", c.name(), r.Txn)
		return true
	}
	// a copy of a request which overtakes the next one is taken for a new request
	if old, ok := c.answered(ans); ok && c.launches[string(ans.body)] < 2 {
		w.violate("pos", "request answered twice", "%s: positions %s and %s both answer request %s", c.name(), old, r.Pos, r.Txn)
	}
	ans.answer(r.Pos)
	for _, u := range c.unconf {
		if u.n < ans.n && u.done && u.first && u.pos == "" {
			w.violate("pos", "request ignored", "%s: request %s got a response, but no position up to %s, which answers %s, covers it", c.name(), u.txn, r.Pos, ans.txn)
		}
	}
	// fold in the parameters of the request this response answers
	prev := c.cur
	c.cur = c.cur.clone()
	c.tlChanged = false
	for k, l := range ans.lists {
		if o := prev.lists[k]; o != nil && o.TL != l.TL {
			c.tlChanged = true
		}
		if o := prev.lists[k]; o != nil && l.slow() {
			// rooms outside the ranges aren't sent again when the parameters change
			c.slowChanged = c.slowChanged || o.TL != l.TL || fmt.Sprint(o.State) != fmt.Sprint(l.State)
		}
		c.cur.lists[k] = l.over(prev.lists[k], ans.raw[k])
	}
	for _, k := range ans.dels {
		delete(c.cur.lists, k)
		delete(c.lists, k)
	}
	for k, s := range ans.subs {
		c.cur.subs[k] = s
	}
	for _, k := range ans.unsubs {
		delete(c.cur.subs, k)
	}
	var un []*sentReq
	for _, u := range c.unconf {
		if u != ans && (u.n > ans.n || u.pos == "") && !(u.n < ans.n && u.n < ans.n-8) {
			un = append(un, u)
		}
	}
	c.unconf = un
	c.pos = r.Pos
	c.nresp++
	c.fullCycles++
	c.lastOK = time.Now()
	if len(r.Rooms) == 0 && !anyOps(&r) && (r.Ext.ToDevice == nil || len(r.Ext.ToDevice.Events) == 0) {
		c.idleResp++
	} else {
		c.idleResp = 0
	}
	c.applyLists(&r, prev)
	c.askedAt = ans.sent
	c.applyRooms(&r)
	c.applyExt(&r, ans)
	return ans == q
}

func anyOps(r *response) bool {
	for _, l := range r.Lists {
		if len(l.Ops) > 0 {
			return true
		}
	}
	return false
}

func (q *sentReq) answer(pos string) { q.pos = pos }

func (c *Client) answered(q *sentReq) (string, bool) { return q.pos, q.pos != "" }

// applyLists applies list operations the way client SDKs do.
func (c *Client) applyLists(r *response, prev *params) {
	w := c.w
	for _, key := range sortedKeys(c.cur.lists) {
		if _, ok := r.Lists[key]; !ok {
			w.violate("list-op", "list missing from response", "%s: list %q", c.name(), key)
		}
	}
	for _, key := range sortedKeys(r.Lists) {
		rl := r.Lists[key]
		spec := c.cur.lists[key]
		if spec == nil {
			w.violate("list-op", "response for unknown list", "%s: list %q was never requested", c.name(), key)
			continue
		}
		lv := c.lists[key]
		if lv == nil {
			lv = &listView{idx: map[int]string{}}
			c.lists[key] = lv
		}
		lv.count = rl.Count
		lv.spec = spec
		gap := -1
		for _, op := range rl.Ops {
			switch op.Op {
			case "DELETE":
				if op.Index == nil {
					w.violate("list-op", "DELETE without index", "%s: list %q", c.name(), key)
					continue
				}
				if gap != -1 {
					lv.remove(gap)
				}
				delete(lv.idx, *op.Index)
				gap = *op.Index
			case "INSERT":
				if op.Index == nil || op.RoomID == "" {
					w.violate("list-op", "INSERT without index or room", "%s: list %q", c.name(), key)
					continue
				}
				if _, ok := lv.idx[*op.Index]; ok {
					switch {
					case gap < 0:
						lv.add(*op.Index)
					case gap > *op.Index:
						lv.shiftRight(gap, *op.Index)
					case gap < *op.Index:
						lv.shiftLeft(*op.Index, gap)
					}
				}
				gap = -1
				if !spec.has(*op.Index) {
					w.violate("list-op", "INSERT outside the window", "%s: list %q index %d ranges %v", c.name(), key, *op.Index, spec.Ranges)
				}
				lv.idx[*op.Index] = op.RoomID
			case "SYNC":
				if len(op.Range) != 2 || op.Range[0] > op.Range[1] && len(op.RoomIDs) > 0 {
					w.violate("list-op", "malformed SYNC", "%s: list %q range %v", c.name(), key, op.Range)
					continue
				}
				slow := spec.slow()
				for i, id := range op.RoomIDs {
					p := op.Range[0] + i
					if p > op.Range[1] {
						w.violate("list-op", "SYNC longer than its range", "%s: list %q range %v with %d rooms", c.name(), key, op.Range, len(op.RoomIDs))
						break
					}
					if !slow && !spec.has(p) {
						w.violate("list-op", "SYNC outside the window", "%s: list %q index %d ranges %v", c.name(), key, p, spec.Ranges)
					}
					lv.idx[p] = id
				}
			case "INVALIDATE":
				if len(op.Range) != 2 {
					w.violate("list-op", "malformed INVALIDATE", "%s: list %q", c.name(), key)
					continue
				}
				for i := op.Range[0]; i <= op.Range[1]; i++ {
					delete(lv.idx, i)
				}
			default:
				w.violate("list-op", "unknown operation", "%s: list %q op %q", c.name(), key, op.Op)
			}
		}
		if gap != -1 {
			lv.remove(gap)
		}
		if spec.slow() {
			lv.idx = map[int]string{}
			continue
		}
		// positions outside the current window are not maintained
		for i := range lv.idx {
			if !spec.has(i) || i >= lv.count {
				delete(lv.idx, i)
			}
		}
		seen := map[string]int{}
		for _, i := range lv.keys() {
			id := lv.idx[i]
			if j, ok := seen[id]; ok {
				w.violate("list-op", "room twice in one list", "%s: list %q has %s at %d and %d after ops %s", c.name(), key, id, j, i, js(rl.Ops))
			}
			seen[id] = i
		}
		for i := 0; i < lv.count; i++ {
			if spec.has(i) && lv.idx[i] == "" {
				w.violate("list-op", "hole in the window", "%s: list %q (count %d, ranges %v) has nothing at %d after ops %s", c.name(), key, lv.count, spec.Ranges, i, js(rl.Ops))
				break
			}
		}
	}
	for _, key := range sortedKeys(c.cur.lists) {
		if _, ok := r.Lists[key]; !ok {
			w.violate("list-op", "requested list absent", "%s: list %q missing from the response", c.name(), key)
		}
	}
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

func (l *listView) keys() []int {
	var out []int
	for i := range l.idx {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}
func (l *listView) max() int {
	m := -1
	for i := range l.idx {
		if i > m {
			m = i
		}
	}
	return m
}
func (l *listView) shiftRight(hi, low int) {
	for i := hi; i > low; i-- {
		if l.spec.has(i) {
			l.set(i, l.idx[i-1])
		}
	}
}
func (l *listView) shiftLeft(hi, low int) {
	for i := low; i < hi; i++ {
		if l.spec.has(i) {
			l.set(i, l.idx[i+1])
		}
	}
}
func (l *listView) set(i int, id string) {
	if id == "" {
		delete(l.idx, i)
	} else {
		l.idx[i] = id
	}
}
func (l *listView) remove(i int) {
	m := l.max()
	if m < 0 || i > m {
		return
	}
	l.shiftLeft(m, i)
	delete(l.idx, m)
}
func (l *listView) add(i int) {
	m := l.max()
	if m < 0 || i > m {
		return
	}
	l.shiftRight(m+1, i)
}

// inView reports whether the room is within a list window or subscribed to.
func (c *Client) inView(id string) bool {
	if c.cur.subs[id] != nil {
		return true
	}
	for k, lv := range c.lists {
		spec := c.cur.lists[k]
		if spec == nil {
			continue
		}
		if spec.slow() && c.rooms[id] != nil && c.rooms[id].live {
			// leaves the list silently, and comes back with a snapshot
			if hr := c.w.hs.rooms[id]; hr != nil {
				if in, known := c.included(hr, spec.Filters); !in && known {
					continue
				}
			}
			return true
		}
		for i, x := range lv.idx {
			if x == id && spec.has(i) {
				return true
			}
		}
	}
	return false
}
