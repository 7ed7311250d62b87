package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	slidingsync "github.com/matrix-org/sliding-sync"
)

// Violation is one observed breach of a property's oracle.
type Violation struct {
	Class  string  `json:"class"` // oracle class
	Key    string  `json:"key"`   // stable description used to match known findings
	Detail string  `json:"detail"`
	At     float64 `json:"at"`
}

// World is one simulated deployment: the proxy (real code), its PostgreSQL
// (real server, simulated access), the homeserver and the clients (models).
type World struct {
	restarted bool // the last phase, after a restart
	k         *kernel
	hs        *HS
	drv       *simDriver
	plan      *Plan
	cfg       *Config
	dsn       string

	up       bool
	reap     bool // sessions of the dead process still have to be ended
	starting bool
	handler  http.Handler
	crashCh  chan struct{} // closed when the current process dies
	restarts int

	clients []*Client
	viol    []Violation
	stopped bool

	opIdx     int
	faultsOff bool
	// fault windows (end times) and one-shots
	dbWinEnd, hsWinEnd   time.Time
	dbWinP, hsWinP       float64
	hsDownUntil          time.Time
	dbDownUntil          time.Time
	oneDB                []*oneShot
	oneHS                []*oneShot
	crashIn              int // crash after this many more db write grants; 0 = none
	crashCommitOnly      bool
	restartAt            time.Time
	lastFault            time.Time
	syncSeen             map[string]int
	hsRespDelivered      map[*hsDevice]int // highest stream position handed to the proxy
	skewR                *prng
	opR                  *prng
	everLimited          bool
	limitedRooms         map[string]bool
	crashes              int
	checking             *Client // whose view is being judged
	dbFaultsSeen         int
	ambiguous            bool // a poller's commit succeeded although it was told otherwise
	acctOps              int
	quiet                bool
	stats                map[string]int
	tdDelivered          map[string]int
	traceOn              bool
	quietSince           time.Time
	slowClient, tokenOps bool
	finds                []Violation
	adN                  int
	txnNext              string
	txnNextDev           *hsDevice
}

const (
	tagBackground = 0
	tagRequest    = 1
)

type oneShot struct {
	n    int // countdown
	kind string
	arg  int
}

func fatalf(format string, a ...interface{}) {
	fmt.Fprintf(os.Stdout, "SIMFATAL "+format+"\n", a...)
	debug.PrintStack()
	os.Exit(70)
}

// strictClass: oracles which hold whatever the database's answers were.
var strictClass = map[string]bool{"conf": true, "invite-leak": true, "priv": true, "td": true, "pos": true, "txn": true, "auth": true, "panic": true, "list-op": true, "live": true, "house": true}

func (w *World) violate(class, key, format string, a ...interface{}) {
	if w.ambiguous && !strictClass[class] {
		w.finding(class, "ambiguous-commit", format, a...)
		return
	}
	if w.checking != nil && strings.HasSuffix(class, "-final") && w.checking.dev.user.skipFinding() {
		w.finding(class, "skipped-rooms", format, a...)
		return
	}
	v := Violation{Class: class, Key: key, Detail: fmt.Sprintf(format, a...), At: w.k.now().Seconds()}
	w.k.logf("VIOLATION %s [%s] %s", class, key, v.Detail)
	for _, o := range w.viol {
		if o.Class == class && o.Key == key {
			return
		}
	}
	w.viol = append(w.viol, v)
}

// finding records a breach that matches a documented known finding.
func (w *World) finding(class, id, format string, a ...interface{}) {
	v := Violation{Class: class, Key: id, Detail: fmt.Sprintf(format, a...), At: w.k.now().Seconds()}
	w.k.logf("KNOWN %s [%s] %s", class, id, v.Detail)
	for _, o := range w.finds {
		if o.Class == class && o.Key == id {
			return
		}
	}
	w.finds = append(w.finds, v)
}

func (w *World) faultCount() int {
	n := 0
	for k, v := range w.k.faultN {
		if !strings.HasPrefix(k, "client_") {
			n += v
		}
	}
	return n
}

func (w *World) skew() int64 {
	if w.cfg.SkewMS == 0 {
		return 0
	}
	return int64(w.skewR.rng(-w.cfg.SkewMS, w.cfg.SkewMS))
}

// hsChanged wakes long-polling /sync requests.
func (w *World) hsChanged() {
	now := time.Now()
	for _, g := range w.k.gates {
		if g.longpoll {
			g.longpoll = false
			g.dev.waiting--
			g.ready = now.Add(time.Duration(g.jitter) * time.Millisecond)
		}
	}
	w.k.poke()
}

// ---- process lifecycle ----

func (w *World) start() {
	w.k.curGen++
	gen := w.k.curGen
	rtFreeze(gen)
	w.crashCh = make(chan struct{})
	w.starting = true
	w.k.logf("proxy: starting generation %d", gen)
	go func() {
		rtSetGen(gen)
		defer func() {
			if r := recover(); r != nil {
				w.k.logf("proxy: start-up died: %v", r)
				w.starting = false
				w.procDied("startup")
			}
		}()
		h2, h3 := slidingsync.Setup("http://hs.test", "simulated", "the-secret", slidingsync.Opts{
			MaxPendingEventUpdates: w.cfg.MaxPending,
			MaxTransactionIDDelay:  time.Duration(w.cfg.TxnDelayMS) * time.Millisecond,
			DBMaxConns:             w.cfg.DBMaxConns,
			DBConnMaxIdleTime:      time.Hour,
			HTTPTimeout:            300 * time.Second,
			HTTPLongTimeout:        1800 * time.Second,
		})
		go h2.StartV2Pollers()
		every := time.Hour
		if w.cfg.CleanS > 0 {
			every = time.Duration(w.cfg.CleanS) * time.Second // keeps an hour's worth all the same
		}
		if w.cfg.MaxTimeline > 0 {
			h2.Store.MaxTimelineLimit = w.cfg.MaxTimeline
		}
		go h2.Store.Cleaner(every)
		w.handler = h3
		w.starting = false
		w.up = true
		w.k.logf("proxy: serving, generation %d", gen)
		w.k.poke()
	}()
}

// procDied tears down everything that only existed in the process.
func (w *World) procDied(why string) {
	w.k.logf("proxy: generation %d dead (%s)", w.k.curGen, why)
	w.up = false
	w.starting = false
	w.crashes++
	gen := w.k.curGen + 1
	rtFreeze(gen)
	w.k.curGen = gen
	w.reap = true
	var keep []*gate
	for _, g := range w.k.gates {
		if g.gen == 0 || g.gen >= gen {
			keep = append(keep, g)
		}
	}
	w.k.gates = keep
	if w.crashCh != nil {
		close(w.crashCh)
		w.crashCh = nil
	}
	w.lastFault = time.Now()
	w.restartAt = time.Now().Add(time.Duration(w.k.fault.rng(1, 3000)) * time.Millisecond)
	for _, d := range w.hs.devices() {
		w.hs.procDied(d)
	}
}

func (w *World) crash(why string) {
	if !w.up && !w.starting {
		return
	}
	w.k.faultN["process_crash"]++
	w.procDied(why)
}

// ---- main loop ----

// runUntil drives the simulation until cond holds or the virtual deadline passes.
func (w *World) runUntil(deadline time.Time, cond func() bool) bool {
	for {
		synctestWait()
		if w.reap {
			// real I/O happens only while everything else is blocked
			w.reap = false
			w.drv.crash(w.k.curGen)
		}
		if len(w.viol) > 0 && w.plan.StopAtFirst {
			return false
		}
		if cond != nil && cond() {
			return true
		}
		now := time.Now()
		if !now.Before(deadline) {
			return cond == nil
		}
		if w.k.steps > w.cfg.MaxSteps {
			w.stats["max_steps"]++
			w.stopped = true
			return false
		}
		if !w.up && !w.starting && !w.restartAt.IsZero() && !w.restartAt.After(now) {
			w.restartAt = time.Time{}
			w.restarts++
			w.start()
			continue
		}
		el := w.k.eligible()
		n := len(el)
		opDue := !w.faultsOff && w.opIdx < len(w.plan.Ops) && w.plan.Ops[w.opIdx].at() <= w.k.now()
		if opDue {
			n++
		}
		if n > 0 {
			i := 0
			if n > 1 {
				i = w.k.sched.n(n)
			}
			if opDue && i == n-1 {
				op := w.plan.Ops[w.opIdx]
				w.opIdx++
				w.apply(op)
				continue
			}
			w.k.grant(el[i])
			if w.crashIn < 0 {
				w.crashIn = 0
				w.crash("after a database write")
			}
			continue
		}
		next := deadline
		for _, g := range w.k.gates {
			if !g.blocked && g.ready.After(now) && g.ready.Before(next) {
				next = g.ready
			}
		}
		if !w.faultsOff && w.opIdx < len(w.plan.Ops) {
			if t := w.k.t0.Add(w.plan.Ops[w.opIdx].at()); t.Before(next) {
				next = t
			}
		}
		if !w.restartAt.IsZero() && w.restartAt.Before(next) {
			next = w.restartAt
		}
		d := next.Sub(now)
		if d <= 0 {
			d = time.Microsecond
		}
		tm := time.NewTimer(d)
		select {
		case <-w.k.wake:
		case <-tm.C:
		}
		tm.Stop()
	}
}

func (w *World) runFor(d time.Duration) { w.runUntil(time.Now().Add(d), nil) }

// ---- database fault decisions ----

func isWrite(op, q string) bool {
	if op == "COMMIT" {
		return true
	}
	if op != "exec" && op != "query" {
		return false
	}
	s := strings.ToUpper(strings.TrimSpace(q))
	return strings.HasPrefix(s, "INSERT") || strings.HasPrefix(s, "UPDATE") || strings.HasPrefix(s, "DELETE") || strings.HasPrefix(s, "WITH")
}

func (w *World) dbFault(c *simConn, g *gate, op, q string) dbFault {
	if w.starting && w.restarts == 0 {
		return dbOK
	}
	if op == "ROLLBACK" {
		return dbOK
	}
	now := time.Now()
	wr := isWrite(op, q)
	if wr && w.crashIn > 0 {
		if !w.crashCommitOnly || op == "COMMIT" || !c.inTx {
			w.crashIn--
			if w.crashIn == 0 {
				w.crashIn = -1 // crash right after this statement
			}
		}
	}
	f := dbOK
	hit := w.cfg.DBReadFaults || g.origin == "v2"
	if !hit {
		if !w.faultsOff && now.Before(w.dbWinEnd) && w.k.fault.p(w.dbWinP/2) {
			f = dbStall
		}
	} else if !w.faultsOff {
		if w.dbDownUntil.After(now) {
			f = dbDropBefore
		}
		for i, o := range w.oneDB {
			if o.kind == "write" && !wr || o.kind == "read" && (wr || op == "connect") || o.kind == "commit" && op != "COMMIT" {
				continue
			}
			o.n--
			if o.n <= 0 && f == dbOK {
				f = dbFault(o.arg)
				w.oneDB = append(w.oneDB[:i:i], w.oneDB[i+1:]...)
			}
			break
		}
		if f == dbOK && now.Before(w.dbWinEnd) && w.k.fault.p(w.dbWinP) {
			f = dbFault(1 + w.k.fault.n(4))
		}
	}
	if f == dbDropAfter && wr && (op == "COMMIT" || !c.inTx) {
		// the outcome is ambiguous to the proxy
		if w.cfg.Ambiguous {
			if g.origin == "v2" {
				w.ambiguous = true
			}
		} else {
			f = dbDropBefore
		}
	}
	if f != dbOK {
		w.k.faultN[f.String()]++
		if f != dbStall {
			w.dbFaultsSeen++
		}
		w.lastFault = now
	}
	return f
}

// ---- homeserver transport ----

type simTransport struct{ w *World }

type hsReply struct {
	code  int
	body  []byte
	err   error
	short bool
}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

func (t *simTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	w := t.w
	k := w.k
	rep := &hsReply{}
	q, _ := url.ParseQuery(req.URL.RawQuery)
	tok := strings.TrimPrefix(req.Header.Get("Authorization"), "Bearer ")
	timeout, _ := strconv.Atoi(q.Get("timeout"))
	g := &gate{kind: "hs", desc: req.URL.Path + " " + tok + " " + q.Get("since"), jitter: k.sched.n(w.cfg.NetMS + 1)}
	g.ready = time.Now().Add(time.Duration(k.sched.n(w.cfg.NetMS+1)) * time.Millisecond)
	dl := time.Now().Add(time.Duration(timeout)*time.Millisecond + time.Duration(w.cfg.NetMS)*time.Millisecond)
	phase := 0
	var fault string
	g.run = func() bool {
		if phase == 1 {
			return true
		}
		now := time.Now()
		if !w.faultsOff && w.hsDownUntil.After(now) {
			k.faultN["hs_down"]++
			w.lastFault = now
			rep.err = &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
			return true
		}
		if fault == "" {
			fault = w.hsFault(req.URL.Path)
			switch fault {
			case "hs_conn_error":
				rep.err = &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
				return true
			case "hs_5xx":
				rep.code, rep.body = 502, []byte(`<html>bad gateway</html>`)
				return true
			case "hs_429":
				rep.code, rep.body = 429, []byte(`{"errcode":"M_LIMIT_EXCEEDED","error":"slow down"}`)
				return true
			case "hs_stall":
				g.stalled = true
				g.ready = now.Add(time.Duration(k.fault.rng(1000, 400000)) * time.Millisecond)
				return false
			}
		}
		d := w.hs.tok[tok]
		switch {
		case strings.HasSuffix(req.URL.Path, "/versions"):
			rep.code, rep.body = 200, []byte(`{"versions":["v1.1","v1.5"]}`)
		case d == nil || d.revoked(tok):
			rep.code, rep.body = 401, []byte(`{"errcode":"M_UNKNOWN_TOKEN","error":"unknown token"}`)
			if d != nil && strings.HasSuffix(req.URL.Path, "/sync") {
				d.served = false
				if d.refused == nil {
					d.refused = map[string]int{}
				}
				key := fmt.Sprintf("%s %d", tok, w.crashes)
				d.refused[key]++
				w.stats["sync_401"]++
				if _, ok := d.toks[tok]; ok {
					d.toks[tok] = w.hs.seq + 1
				}
				if d.refused[key] > 3 && w.dbFaultsSeen == 0 {
					w.violate("auth", "polling with a revoked token", "%s/%s: the homeserver refused this token %d times and the proxy still polls with it", d.user.id, d.id, d.refused[key])
				}
			}
		case strings.HasSuffix(req.URL.Path, "/whoami"):
			rep.body, _ = json.Marshal(map[string]string{"user_id": d.user.id, "device_id": d.id})
			rep.code = 200
		case strings.HasSuffix(req.URL.Path, "/sync"):
			var flt struct {
				Room struct {
					Rooms    *[]string `json:"rooms"`
					Timeline struct {
						Limit int `json:"limit"`
					} `json:"timeline"`
				} `json:"room"`
			}
			json.Unmarshal([]byte(q.Get("filter")), &flt)
			limit := flt.Room.Timeline.Limit
			if limit > w.cfg.HSTimelineMax {
				limit = w.cfg.HSTimelineMax
			}
			if limit == 0 {
				limit = 10
			}
			if g.longpoll {
				g.longpoll = false
				d.waiting--
			}
			if phase == 0 {
				phase = 2
				w.hs.onPoll(d, q.Get("since"), tok)
			}
			noRooms := flt.Room.Rooms != nil && len(*flt.Room.Rooms) == 0
			res := w.hs.compute(d, q.Get("since"), limit, noRooms)
			if res.empty && now.Before(dl) && q.Get("since") != "" {
				if !g.longpoll {
					g.longpoll = true
					g.dev = d
					d.waiting++
				}
				g.ready = dl
				return false
			}
			rep.body, _ = json.Marshal(res)
			rep.code = 200
			w.k.logf("hs: sync %s/%s since=%q -> %s rooms=%d td=%d %s", d.user.id, d.id, q.Get("since"), res.NextBatch, len(res.Rooms.Join)+len(res.Rooms.Leave)+len(res.Rooms.Invite), len(res.td), fmt.Sprint(res.chunks))
			w.stats["hs_syncs"]++
			if fault != "hs_response_lost" && fault != "hs_truncated" {
				w.hs.delivered(d, res)
				if noRooms {
					w.hs.skipRooms(d, res.upTo)
				}
				d.synced = w.crashes + 1
			}
		default:
			rep.code, rep.body = 404, []byte(`{}`)
		}
		if fault == "hs_response_lost" {
			rep.err = &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
		}
		if fault == "hs_truncated" && len(rep.body) > 2 {
			rep.body, rep.short = rep.body[:len(rep.body)/2], true
		}
		phase = 1
		g.ready = now.Add(time.Duration(k.sched.n(w.cfg.NetMS+1)) * time.Millisecond)
		return false
	}
	if !k.enter(req.Context(), g) {
		if g.longpoll {
			g.longpoll = false
			g.dev.waiting--
		}
		return nil, req.Context().Err()
	}
	if rep.err != nil {
		return nil, rep.err
	}
	var body io.Reader = bytes.NewReader(rep.body)
	if rep.short {
		body = io.MultiReader(body, errReader{io.ErrUnexpectedEOF})
	}
	return &http.Response{StatusCode: rep.code, Status: fmt.Sprintf("%d %s", rep.code, http.StatusText(rep.code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(body), ContentLength: -1, Request: req}, nil
}

var hsFaultKinds = []string{"hs_conn_error", "hs_5xx", "hs_429", "hs_response_lost", "hs_truncated", "hs_stall"}

func (w *World) hsFault(path string) string {
	if w.faultsOff {
		return "none"
	}
	f := "none"
	if strings.HasSuffix(path, "/sync") {
		for i, o := range w.oneHS {
			o.n--
			if o.n <= 0 {
				f = hsFaultKinds[o.arg%len(hsFaultKinds)]
				w.oneHS = append(w.oneHS[:i:i], w.oneHS[i+1:]...)
			}
			break
		}
	}
	if f == "none" && time.Now().Before(w.hsWinEnd) && w.k.fault.p(w.hsWinP) {
		f = hsFaultKinds[w.k.fault.n(len(hsFaultKinds))]
	}
	if f != "none" {
		w.k.faultN[f]++
		w.lastFault = time.Now()
		w.k.logf("fault: %s on %s", f, path)
	}
	return f
}

func (w *World) ctx() context.Context { return context.Background() }

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
