package main

import (
	"time"
)

// Config holds the knobs of one run; all of it is derived from the seed (or read
// back from a replay file).
type Config struct {
	Users           int  `json:"users"`
	Devs            int  `json:"devs"`
	Remotes         int  `json:"remotes"`
	SkewMS          int  `json:"skew_ms"`
	MaxPending      int  `json:"max_pending"`
	TxnDelayMS      int  `json:"txn_delay_ms"`
	DBMaxConns      int  `json:"db_max_conns"`
	MaxSteps        int  `json:"max_steps"`
	NetMS           int  `json:"net_ms"`
	DBMS            int  `json:"db_ms"`
	HSTimelineMax   int  `json:"hs_timeline_max"`
	HSToDeviceLimit int  `json:"hs_to_device_limit"`
	Yield           int  `json:"yield"`
	Spread          int  `json:"spread_ms"`              // virtual time over which the operations are spread
	BadRoom         bool `json:"bad_room"`               // the homeserver sends a room without its create event
	Ambiguous       bool `json:"ambiguous"`              // a lost connection may hide a successful commit
	DBReadFaults    bool `json:"db_read_faults"`         // also fail reads of the proxy's background consumers
	CleanS          int  `json:"clean_s,omitempty"`      // interval of the housekeeping, 0: an hour
	MaxTimeline     int  `json:"max_timeline,omitempty"` // 0: 50
}

// Op is one planned step. Operands are taken modulo whatever is available when
// the step runs, so a plan stays meaningful after steps are removed.
type Op struct {
	T int    `json:"t"` // ms since the start of the run
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
}

func (o *Op) at() time.Duration { return time.Duration(o.T) * time.Millisecond }
func (o *Op) a(i int) int {
	if i < len(o.A) && o.A[i] >= 0 {
		return o.A[i]
	}
	return 0
}

type Plan struct {
	Seed           uint64   `json:"seed"`
	Prof           string   `json:"profile"`
	Cfg            Config   `json:"config"`
	Ops            []*Op    `json:"ops"`
	StopAtFirst    bool     `json:"stop_at_first"`
	NoFinalRestart bool     `json:"no_final_restart,omitempty"`
	Only           []string `json:"only,omitempty"` // oracle classes that count (empty: all)
}

type weighted struct {
	k string
	w int
}

// A profile weights operations and faults; each run additionally drops a random
// subset of the kinds ("swarm"), so that runs differ in character.
type profile struct {
	ops    []weighted
	faults []weighted
	nOps   [2]int
	rooms  int       // extra rooms to start with
	rate   []float64 // share of steps which are faults
	tune   func(r *prng, c *Config)
}

func pick(r *prng, ws []weighted) string {
	t := 0
	for _, w := range ws {
		t += w.w
	}
	n := r.n(t)
	for _, w := range ws {
		if n < w.w {
			return w.k
		}
		n -= w.w
	}
	return ""
}

func genPlan(seed uint64, prof string) *Plan {
	pf, ok := profiles[prof]
	if !ok {
		fatalf("unknown profile %q", prof)
	}
	h := uint64(0)
	for _, c := range prof {
		h = h*131 + uint64(c)
	}
	r := (&prng{seed}).sub(h)
	r.u64()
	c := Config{
		Users: r.rng(2, 4), Devs: r.rng(1, 2), Remotes: r.rng(1, 3),
		MaxPending: 2000, TxnDelayMS: 1000, DBMaxConns: 0, MaxSteps: 60000,
		HSTimelineMax: 50, HSToDeviceLimit: 100,
	}
	c.NetMS = []int{0, 1, 5, 40, 300}[r.n(5)]
	c.DBMS = []int{0, 0, 1, 5, 30}[r.n(5)]
	c.Yield = []int{0, 1000, 6000, 20000}[r.n(4)]
	c.Spread = []int{2000, 8000, 30000, 120000}[r.n(4)]
	if r.p(0.25) {
		c.DBMaxConns = r.rng(3, 8)
	}
	c.Ambiguous = r.p(0.1)
	c.BadRoom = r.p(0.15)
	if r.p(0.4) {
		c.CleanS = []int{3, 10, 30}[r.n(3)]
		c.MaxTimeline = []int{4, 10, 20, 50}[r.n(4)]
	}
	if pf.tune != nil {
		pf.tune(r, &c)
	}
	p := &Plan{Seed: seed, Prof: prof, Cfg: c}
	ops := r.n1(3)
	_ = ops
	// setup: rooms and first clients at t=0
	for i, n := 0, r.rng(1, 6)+pf.rooms; i < n; i++ {
		p.Ops = append(p.Ops, &Op{0, "room", args(r)})
	}
	for i, n := 0, r.n(12); i < n; i++ {
		p.Ops = append(p.Ops, &Op{0, pick(r, setupOps), args(r)})
	}
	// swarm: drop some kinds
	var kinds []weighted
	for _, w := range pf.ops {
		if w.w >= 100 || r.p(0.75) {
			kinds = append(kinds, weighted{w.k, w.w % 100})
		}
	}
	var fk []weighted
	for _, w := range pf.faults {
		if r.p(0.6) {
			fk = append(fk, w)
		}
	}
	n := r.rng(pf.nOps[0], pf.nOps[1])
	t := 500
	m := r.rng(1, 3)
	if r.p(0.4) {
		m += c.Users
	}
	for i := 0; i < m; i++ {
		p.Ops = append(p.Ops, &Op{t + r.n(1500), "connect", args(r)})
	}
	rates := []float64{0, 0.05, 0.15, 0.3}
	if pf.rate != nil {
		rates = pf.rate
	}
	fr := rates[r.n(len(rates))]
	if len(fk) == 0 {
		fr = 0
	}
	for i := 0; i < n; i++ {
		if r.p(0.45) {
			// clustered: same instant or within a few ms of the previous step
			t += r.n(8)
		} else {
			t += r.n(2*c.Spread/n + 1)
		}
		k := ""
		if r.p(fr) {
			k = pick(r, fk)
		} else {
			k = pick(r, kinds)
		}
		p.Ops = append(p.Ops, &Op{t, k, args(r)})
	}
	sortOps(p.Ops)
	return p
}

func (r *prng) n1(n int) int { return 1 + r.n(n) }

func args(r *prng) []int {
	a := make([]int, 5)
	for i := range a {
		a[i] = r.n(1 << 12)
	}
	return a
}

func sortOps(ops []*Op) {
	// stable insertion sort by time
	for i := 1; i < len(ops); i++ {
		for j := i; j > 0 && ops[j].T < ops[j-1].T; j-- {
			ops[j], ops[j-1] = ops[j-1], ops[j]
		}
	}
}

var setupOps = []weighted{{"msg", 6}, {"state", 3}, {"join", 3}, {"invite", 3}, {"leave", 1}, {"acct", 2}, {"receipt", 2}, {"typing", 1}, {"unread", 1}, {"todev", 1}, {"direct", 1}, {"tag", 1}, {"space", 1}}

var roomOps = []weighted{{"msg", 112}, {"burst", 2}, {"state", 6}, {"profile", 3}, {"join", 5}, {"leave", 4}, {"invite", 4}, {"kick", 2}, {"ban", 1}, {"room", 3}, {"redact", 2}, {"upgrade", 1}, {"space", 1}}
var userOps = []weighted{{"acct", 3}, {"direct", 1}, {"tag", 2}, {"receipt", 4}, {"unread", 2}, {"typing", 2}, {"txn", 3}, {"todev", 3}, {"devlist", 2}, {"otk", 1}, {"fallback", 1}}
var clientOps = []weighted{{"connect", 103}, {"range", 4}, {"sort", 1}, {"filter", 1}, {"sub", 3}, {"unsub", 2}, {"addlist", 1}, {"dellist", 1}, {"tlimit", 1}, {"reset", 1}}
var netOps = []weighted{{"c_lostreq", 2}, {"c_lostresp", 3}, {"c_abort", 2}, {"c_dup", 2}, {"c_interrupt", 2}, {"c_pause", 2}}

func cat(ws ...[]weighted) []weighted {
	var out []weighted
	for _, w := range ws {
		out = append(out, w...)
	}
	return out
}

var dbFaults = []weighted{{"db_one", 4}, {"db_win", 2}, {"db_down", 1}}
var hsFaults = []weighted{{"hs_one", 4}, {"hs_win", 2}, {"hs_down", 1}}
var crashFaults = []weighted{{"crash", 1}, {"crash_write", 3}}

// focus: the given kinds are always present and dominate, the rest of the
// vocabulary stays with low weight.
func focus(main []weighted) []weighted {
	in := map[string]bool{}
	var out []weighted
	for _, w := range main {
		in[w.k] = true
		out = append(out, weighted{w.k, 100 + w.w})
	}
	for _, w := range cat(roomOps, userOps, clientOps, netOps) {
		if !in[w.k] {
			n := w.w % 100
			out = append(out, weighted{w.k, (n + 2) / 3})
		}
	}
	return out
}

var allFaults = cat(dbFaults, hsFaults, crashFaults)

var profiles = map[string]*profile{
	"mix": {ops: cat(roomOps, userOps, clientOps, netOps), faults: allFaults, nOps: [2]int{10, 70}},
	// membership changes, seen by several users at once
	"memb": {ops: focus([]weighted{{"msg", 8}, {"join", 12}, {"leave", 12}, {"invite", 12}, {"kick", 6}, {"ban", 4}, {"state", 8}, {"connect", 3}, {"sub", 4}}), faults: allFaults, nOps: [2]int{10, 50}},
	// long and overlapping timelines
	"tl": {ops: focus([]weighted{{"msg", 30}, {"burst", 8}, {"state", 6}, {"join", 3}, {"connect", 3}, {"range", 3}, {"sub", 4}, {"unsub", 3}, {"tlimit", 2}}), faults: allFaults, nOps: [2]int{15, 70}},
	// sorted windows over many rooms
	"lists": {ops: focus([]weighted{{"msg", 16}, {"state", 8}, {"room", 5}, {"join", 4}, {"leave", 4}, {"unread", 4}, {"tag", 3}, {"range", 10}, {"sort", 4}, {"filter", 4}, {"addlist", 4}, {"dellist", 3}, {"upgrade", 2}, {"space", 3}, {"connect", 3}}), faults: hsFaults, nOps: [2]int{15, 70}, rooms: 8},
	// the process dies, over and over
	"crash": {ops: focus([]weighted{{"msg", 14}, {"state", 6}, {"join", 4}, {"leave", 3}, {"invite", 3}, {"acct", 4}, {"receipt", 4}, {"unread", 3}, {"todev", 4}, {"connect", 3}}), faults: cat(crashFaults, crashFaults, dbFaults), nOps: [2]int{10, 60}, rate: []float64{0.15, 0.3, 0.45}},
	"td":    {ops: focus([]weighted{{"todev", 24}, {"keyreq", 6}, {"keycancel", 6}, {"msg", 4}, {"connect", 4}, {"c_lostresp", 4}, {"c_lostreq", 3}, {"c_abort", 3}, {"c_dup", 3}, {"reset", 2}}), faults: allFaults, nOps: [2]int{10, 50}, tune: func(r *prng, c *Config) { c.HSToDeviceLimit = []int{100, 100, 3, 1}[r.n(4)] }},
	"e2ee":  {ops: focus([]weighted{{"devlist", 16}, {"otk", 8}, {"fallback", 6}, {"msg", 6}, {"connect", 4}, {"c_lostresp", 4}, {"c_abort", 3}, {"c_dup", 3}}), faults: allFaults, nOps: [2]int{10, 50}},
	"retry": {ops: focus([]weighted{{"msg", 12}, {"state", 4}, {"join", 3}, {"leave", 3}, {"acct", 4}, {"todev", 4}, {"range", 8}, {"sub", 6}, {"unsub", 4}, {"sort", 2}, {"addlist", 3}, {"dellist", 3}, {"connect", 3}, {"c_lostreq", 8}, {"c_lostresp", 10}, {"c_abort", 8}, {"c_dup", 8}, {"c_interrupt", 8}, {"c_pause", 3}}), faults: hsFaults, nOps: [2]int{15, 60}},
	"user":  {ops: focus([]weighted{{"acct", 14}, {"tag", 5}, {"direct", 3}, {"receipt", 12}, {"unread", 10}, {"typing", 8}, {"msg", 8}, {"join", 3}, {"range", 3}, {"sub", 4}, {"connect", 3}}), faults: allFaults, nOps: [2]int{10, 60}},
	"txn":   {ops: focus([]weighted{{"txn", 25}, {"msg", 6}, {"receipt", 3}, {"unread", 3}, {"sub", 3}, {"range", 3}, {"connect", 4}}), faults: allFaults, nOps: [2]int{10, 50}, tune: func(r *prng, c *Config) { c.Devs = 2; c.NetMS = []int{0, 20, 200, 400}[r.n(4)] }},
	// clients which fall behind: the queue of a connection is short
	"slow": {ops: focus([]weighted{{"msg", 20}, {"burst", 8}, {"state", 6}, {"join", 3}, {"acct", 4}, {"receipt", 4}, {"unread", 4}, {"todev", 3}, {"connect", 5}, {"c_pause", 8}, {"c_abort", 2}, {"range", 2}, {"sub", 3}}), faults: hsFaults, nOps: [2]int{15, 60}, tune: func(r *prng, c *Config) { c.MaxPending = []int{1, 2, 3, 5, 10, 30}[r.n(6)] }},
	// typing, with the users whose pollers report it coming and going
	"typ": {ops: focus([]weighted{{"typing", 45}, {"leave", 14}, {"join", 20}, {"kick", 2}, {"msg", 6}, {"connect", 6}, {"sub", 3}, {"c_pause", 6}, {"receipt", 6}, {"revoke", 1}, {"newdev", 1}}), faults: hsFaults, nOps: [2]int{10, 50}},
	// pollers fall behind and are sent limited timelines
	"gap": {ops: focus([]weighted{{"msg", 16}, {"burst", 5}, {"state", 10}, {"profile", 4}, {"invite", 10}, {"join", 8}, {"leave", 8}, {"kick", 8}, {"ban", 2}, {"redact", 3}, {"connect", 4}, {"sub", 3}}), faults: []weighted{{"hs_down", 4}, {"hs_win", 1}, {"hs_one", 1}, {"crash", 1}}, nOps: [2]int{15, 60}, rate: []float64{0.1, 0.2}, tune: func(r *prng, c *Config) { c.HSTimelineMax = []int{1, 2, 3, 5, 10}[r.n(5)] }},
	// an hour passes after the operations, see house.go
	"long": {ops: focus([]weighted{{"msg", 16}, {"state", 6}, {"join", 4}, {"leave", 4}, {"invite", 3}, {"txn", 4}, {"todev", 6}, {"acct", 4}, {"connect", 10}, {"c_pause", 3}}), faults: allFaults, nOps: [2]int{6, 25}, tune: func(r *prng, c *Config) {
		c.MaxSteps = 150000
		if r.p(0.6) {
			c.CleanS, c.MaxTimeline = 0, 0
		} else {
			c.CleanS = 60 * (1 + r.n(20))
		}
	}},
	// logging out, logging in and rotating tokens
	"auth": {ops: focus([]weighted{{"revoke", 6}, {"rotate", 12}, {"newdev", 4}, {"badtok", 5}, {"msg", 12}, {"state", 4}, {"todev", 6}, {"acct", 4}, {"devlist", 3}, {"otk", 3}, {"join", 3}, {"leave", 2}, {"typing", 3}, {"connect", 10}, {"c_pause", 2}, {"c_abort", 2}}), faults: allFaults, nOps: [2]int{10, 50}},
	"inv":  {ops: focus([]weighted{{"invite", 16}, {"join", 8}, {"leave", 8}, {"kick", 6}, {"ban", 3}, {"state", 6}, {"msg", 6}, {"typing", 3}, {"receipt", 3}, {"sub", 4}, {"range", 3}, {"connect", 3}}), faults: allFaults, nOps: [2]int{10, 50}},
}
