package main

import (
	"context"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"time"
)

// ---- housekeeping: an hour passes, and some devices have not been used for weeks ----

// house lets an hour and a bit go by with the devices in different states of use, and
// checks what the proxy's hourly clean-up and its idle limits did about them:
//   - unused for more than 30 days: must no longer be polled for,
//   - unused for less: must still be polled for,
//   - a connection which is used at least every 29 minutes must be kept,
//
// after which everyone comes back and must get everything.
func (w *World) house() {
	r := w.opR.sub(777)
	w.k.logf("housekeeping phase")
	retired := map[*hsDevice]bool{}
	var kept []*hsDevice
	for _, d := range w.hs.devices() {
		if d.deleted || d.dead[d.token] || !d.served {
			for _, c := range w.clients {
				if c.dev == d {
					c.closed = true
				}
			}
			continue
		}
		var keep *Client
		mode := r.n(6)
		for _, c := range w.clients {
			if c.dev != d || c.closed {
				continue
			}
			if mode >= 3 && keep == nil && !c.fresh && !c.bogus && !c.unauth && c.pos != "" {
				keep = c
				continue
			}
			c.closed = true
		}
		switch {
		case keep == nil && mode == 0:
			kept = append(kept, d)
			d.agedDays = 20 + r.n(10)
		case keep == nil:
			retired[d] = true
			d.agedDays = 31 + r.n(60)
		case mode == 3:
			kept = append(kept, d)
			keep.timeout = 30000
			keep.think = 500
			if r.n(2) == 0 {
				d.agedDays = 31 + r.n(60) // back after a long time, before the clean-up runs
			}
		case mode == 4:
			kept = append(kept, d)
			keep.timeout = 10000
			keep.nap = time.Duration(20+r.n(9)) * time.Minute
		default:
			kept = append(kept, d)
			keep.timeout = 10000
			keep.nap = time.Duration(31+r.n(20)) * time.Minute
			keep.slept = true
		}
	}
	w.runFor(15 * time.Second)
	if w.done() {
		return
	}
	for _, d := range w.hs.devices() {
		if d.agedDays > 0 {
			w.sql(fmt.Sprintf("UPDATE syncv3_sync2_tokens SET last_seen = last_seen - interval '%d days' WHERE user_id='%s' AND device_id='%s'", d.agedDays, d.user.id, d.id))
			w.k.logf("house: %s/%s was last used %d days ago", d.user.id, d.id, d.agedDays)
			w.stats["aged_devices"]++
		}
	}
	for i, d := range kept {
		if r.n(2) == 0 {
			continue
		}
		// an access token which was replaced by the present one long ago
		w.sql(fmt.Sprintf("INSERT INTO syncv3_sync2_tokens(token_hash, token_encrypted, user_id, device_id, last_seen) "+
			"SELECT 'old%d', token_encrypted, user_id, device_id, last_seen - interval '40 days' FROM syncv3_sync2_tokens "+
			"WHERE user_id='%s' AND device_id='%s' ORDER BY last_seen DESC LIMIT 1", i, d.user.id, d.id))
		w.stats["older_tokens"]++
	}
	t0 := time.Now()
	kinds := []string{"msg", "msg", "msg", "state", "txn", "todev", "acct", "receipt", "unread", "profile", "devlist", "leave", "join", "invite"}
	restartAt := r.n(24)
	for i := 0; i < 8; i++ {
		if i == restartAt {
			// the proxy restarts, perhaps with a database which is not quite ready
			w.faultsOff = false
			w.crash("restarted")
			if r.n(2) == 0 {
				w.oneDB = append(w.oneDB, &oneShot{n: 1 + r.n(3), kind: "read", arg: 1 + r.n(4)})
			}
			w.runFor(20 * time.Second)
			w.faultsOff = true
			w.oneDB = nil
			w.stats["house_restarts"]++
			t0 = time.Now()
		}
		w.runUntil(t0.Add(time.Duration(1+i*8+r.n(7))*time.Minute+time.Duration(r.n(60000))*time.Millisecond), nil)
		if w.done() {
			return
		}
		w.apply(&Op{K: kinds[r.n(len(kinds))], A: []int{r.n(4096), r.n(4096), r.n(4096), r.n(4096), r.n(4096)}})
	}
	w.runUntil(t0.Add(70*time.Minute), nil)
	if w.done() {
		return
	}
	for d := range retired {
		d.served = false
	}
	for _, d := range w.hs.devices() {
		if retired[d] && time.Since(d.polledAt) < 4*time.Minute {
			w.violate("house", "unused device still polled", "%s/%s was last used %d days ago and is still polled for an hour later", d.user.id, d.id, d.agedDays)
			return
		}
	}
	for _, d := range kept {
		if time.Since(d.polledAt) > 3*time.Minute {
			w.violate("house", "used device not polled", "%s/%s (last used %d days ago) has not been polled for since %v", d.user.id, d.id, d.agedDays, d.polledAt.Sub(w.k.t0))
			return
		}
	}
	w.stats["house_checked"]++
	// everyone who stayed catches up
	for _, c := range w.clients {
		c.nap = 0
	}
	w.quiesce()
	if w.done() {
		return
	}
	w.finalClients()
	if w.done() {
		return
	}
	// devices which are back get the to-device messages which waited for them
	for _, d := range w.hs.devices() {
		if !retired[d] || r.n(2) == 0 {
			continue
		}
		c := w.newClient(d, d.token)
		c.td = true
		c.timeout = 2000
		c.want.lists["a"] = &listSpec{Ranges: [][2]int{{0, 20}}, Sort: []string{"by_recency"}, Filters: json.RawMessage(`{}`), State: [][2]string{{"m.room.create", ""}}, TL: 3}
		go c.loop()
		w.runUntil(time.Now().Add(100*time.Second), func() bool { return c.nresp >= 3 && len(w.undelivered(d)) == 0 })
		if w.done() {
			return
		}
		if u := w.undelivered(d); len(u) > 0 {
			w.violateTD(u[0], "message never delivered", "%s: %s was sent to the device while it was not polled for, and not delivered 100 s after it came back", c.name(), u[0].id)
			return
		}
		c.closed = true
	}
	w.freshCheck("return")
}

func (w *World) undelivered(d *hsDevice) []*toDev {
	var out []*toDev
	for _, t := range d.inbox {
		if !d.tdEver[t.id] && !w.withdrawnFor(d, t) {
			out = append(out, t)
		}
	}
	return out
}

// sql changes the database behind the proxy's back; only while everything is blocked.
func (w *World) sql(q string) {
	for i := 0; ; i++ {
		synctestWait()
		c, err := w.drv.realOpen()
		if err == nil {
			_, err = c.(driver.ExecerContext).ExecContext(context.Background(), q, nil)
			c.Close()
		}
		if err == nil {
			return
		}
		if i == 20 {
			fatalf("%s: %v", q, err)
		}
		w.runFor(100 * time.Millisecond) // locked
	}
}
