package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

func (w *World) rooms() []*hsRoom {
	var out []*hsRoom
	for _, id := range w.hs.order {
		out = append(out, w.hs.rooms[id])
	}
	return out
}

func (w *World) room(n int) *hsRoom {
	rs := w.rooms()
	if len(rs) == 0 {
		return nil
	}
	return rs[n%len(rs)]
}

func (w *World) user(n int) *hsUser { return w.hs.users[w.hs.uord[n%len(w.hs.uord)]] }

// served: does some open connection belong to the device?
func (w *World) served(d *hsDevice) bool {
	for _, c := range w.clients {
		if c.dev == d && !c.closed && !c.fresh {
			return true
		}
	}
	return false
}

// local picks a user of the proxy, mostly one with an open connection.
func (w *World) local(n int) *hsUser {
	var ls, on []*hsUser
	for _, id := range w.hs.uord {
		if u := w.hs.users[id]; u.local {
			ls = append(ls, u)
			for _, d := range u.devs {
				if w.served(d) {
					on = append(on, u)
					break
				}
			}
		}
	}
	if n%8 != 0 && len(on) > 0 {
		ls = on
	}
	return ls[n/8%len(ls)]
}

func (w *World) anyDevice(n int) *hsDevice {
	var ds []*hsDevice
	for _, d := range w.hs.devices() {
		if !d.deleted {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return nil
	}
	return ds[n%len(ds)]
}

// device picks a device, mostly one with an open connection.
func (w *World) device(n int) *hsDevice {
	var on []*hsDevice
	for _, d := range w.hs.devices() {
		if !d.deleted && w.served(d) {
			on = append(on, d)
		}
	}
	if n%8 == 0 || len(on) == 0 {
		return w.anyDevice(n / 8)
	}
	return on[n/8%len(on)]
}

// roomOf picks a room the user is in.
func (w *World) roomOf(u *hsUser, n int) *hsRoom {
	rs := w.rooms()
	for i := range rs {
		if r := rs[(n+i)%len(rs)]; r.member(u.id) == "join" {
			return r
		}
	}
	return w.room(n)
}

func (w *World) joinedUser(r *hsRoom, n int) string {
	js := r.joined()
	if len(js) == 0 {
		return ""
	}
	return js[n%len(js)]
}

func (w *World) client(n int) *Client {
	var cs []*Client
	for _, c := range w.clients {
		if !c.closed && !c.fresh {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	return cs[n%len(cs)]
}

func (h *HS) nextMarker() string { return fmt.Sprintf("mk%dk", h.nev+1) }

func memberContent(h *HS, user, membership string, variant int) map[string]interface{} {
	c := map[string]interface{}{"membership": membership}
	if membership == "join" || membership == "invite" {
		if variant%8 != 0 {
			c["displayname"] = "D" + user[1:strings.Index(user, ":")] + " " + h.nextMarker()
		}
		if variant%3 != 0 {
			c["avatar_url"] = "mxc://av/" + h.nextMarker()
		}
	}
	return c
}

func (h *HS) setMember(r *hsRoom, sender, target, membership string, variant int) *hsEvent {
	before := r.member(target)
	e := h.send(r, sender, "m.room.member", sk(target), memberContent(h, target, membership, variant))
	if r.enc && before != membership {
		// device list changes caused by sharing or no longer sharing a room
		for _, o := range r.joined() {
			if o == target {
				continue
			}
			if membership == "join" {
				h.markChanged(target, o, e.seq)
				h.markChanged(o, target, e.seq)
			} else if before == "join" {
				if !h.shareEnc(target, o) {
					h.markLeft(target, o, e.seq)
					h.markLeft(o, target, e.seq)
				}
			}
		}
	}
	return e
}

func (h *HS) shareEnc(a, b string) bool {
	for _, id := range h.order {
		r := h.rooms[id]
		if r.enc && r.member(a) == "join" && r.member(b) == "join" {
			return true
		}
	}
	return false
}

func (h *HS) markChanged(viewer, who string, seq int) {
	u := h.users[viewer]
	u.devChanged[who] = seq
	delete(u.devLeft, who)
}
func (h *HS) markLeft(viewer, who string, seq int) {
	u := h.users[viewer]
	u.devLeft[who] = seq
	delete(u.devChanged, who)
}

func (w *World) makeRoom(creator string, kind, mask, variant int) *hsRoom {
	h := w.hs
	typ := ""
	if kind%6 == 4 {
		typ = "m.space"
	}
	r := h.newRoom(typ)
	cc := map[string]interface{}{"creator": creator, "room_version": "10"}
	if variant%48 == 17 {
		cc["predecessor"] = map[string]interface{}{"room_id": r.id, "event_id": "$x"} // nonsense, but servers can send it
	}
	if typ != "" {
		cc["type"] = typ
	}
	h.send(r, creator, "m.room.create", sk(""), cc)
	h.setMember(r, creator, creator, "join", variant+1)
	h.send(r, creator, "m.room.power_levels", sk(""), map[string]interface{}{"users": map[string]int{creator: 100}})
	h.send(r, creator, "m.room.join_rules", sk(""), map[string]interface{}{"join_rule": "public"})
	dm := kind%6 == 1
	if !dm && variant%3 != 0 {
		h.send(r, creator, "m.room.name", sk(""), map[string]interface{}{"name": "N" + r.id[1:strings.Index(r.id, ":")] + " " + h.nextMarker()})
	}
	if kind%6 == 2 || kind%6 == 1 && variant%2 == 0 {
		h.send(r, creator, "m.room.encryption", sk(""), map[string]interface{}{"algorithm": "m.megolm.v1.aes-sha2"})
	}
	if variant%5 == 0 {
		h.send(r, creator, "m.room.canonical_alias", sk(""), map[string]interface{}{"alias": "#a" + h.nextMarker() + ":hs"})
	}
	if variant%7 == 0 {
		h.send(r, creator, "m.room.avatar", sk(""), map[string]interface{}{"url": "mxc://room/" + h.nextMarker()})
	}
	n := 0
	for i, id := range h.uord {
		if id == creator {
			continue
		}
		if dm && n >= 1 {
			break
		}
		if mask>>(i%10)&1 == 1 || dm {
			n++
			if dm && variant%4 == 1 {
				h.setMember(r, creator, id, "invite", variant+2)
			} else {
				h.setMember(r, id, id, "join", variant+i)
			}
			if dm {
				w.setDirect(h.users[creator], id, r.id, true)
				if variant%2 == 0 {
					w.setDirect(h.users[id], creator, r.id, true)
				}
			}
		}
	}
	return r
}

func (w *World) setDirect(u *hsUser, with, room string, on bool) {
	if !u.local {
		return
	}
	if on {
		u.direct[room] = true
		u.everDirect[room] = true
		u.directWith[room] = with
	} else {
		delete(u.direct, room)
	}
	m := map[string][]string{}
	for _, id := range w.hs.order {
		if u.direct[id] {
			m[u.directWith[id]] = append(m[u.directWith[id]], id)
		}
	}
	b, _ := json.Marshal(m)
	w.hs.setAccountData(u, "", "m.direct", string(b))
}

func (w *World) adMark(u *hsUser) string {
	w.adN++
	return fmt.Sprintf(`{"v":"ad~%s~%d"}`, u.id, w.adN)
}

// apply performs one planned step.
func (w *World) apply(op *Op) {
	h := w.hs
	w.k.logf("op %s %v", op.K, op.A)
	w.stats["op_"+op.K]++
	switch op.K {
	case "room":
		w.makeRoom(w.user(op.a(0)).id, op.a(1), op.a(2), op.a(3))
	case "msg", "hl":
		if r := w.room(op.a(0)); r != nil {
			if s := w.joinedUser(r, op.a(1)); s != "" {
				w.message(r, s, op.a(2))
			}
		}
	case "burst":
		if r := w.room(op.a(0)); r != nil {
			n := 2 + op.a(2)%12
			if op.a(3)%4 == 0 {
				n = 20 + op.a(2)%60
			}
			for i := 0; i < n; i++ {
				if s := w.joinedUser(r, op.a(1)+i); s != "" {
					w.message(r, s, i)
				}
			}
		}
	case "state":
		r := w.room(op.a(0))
		if r == nil {
			return
		}
		s := w.joinedUser(r, op.a(1))
		if s == "" {
			return
		}
		w.stateOp(r, s, op.a(2), op.a(3))
	case "profile":
		if r := w.room(op.a(0)); r != nil {
			if s := w.joinedUser(r, op.a(1)); s != "" {
				h.setMember(r, s, s, "join", op.a(2))
			}
		}
	case "join":
		r, u := w.room(op.a(0)), w.user(op.a(1))
		if r == nil {
			return
		}
		if m := r.member(u.id); m != "join" && m != "ban" && len(r.joined()) > 0 {
			h.setMember(r, u.id, u.id, "join", op.a(2))
		}
	case "leave":
		r := w.room(op.a(0))
		if r == nil {
			return
		}
		// leave a room, or reject an invite
		var cand []string
		for _, id := range h.uord {
			if m := r.member(id); m == "join" || m == "invite" {
				cand = append(cand, id)
			}
		}
		if len(cand) > 0 {
			u := cand[op.a(1)%len(cand)]
			h.setMember(r, u, u, "leave", 0)
		}
	case "kick", "ban", "unban":
		r := w.room(op.a(0))
		if r == nil {
			return
		}
		s := w.joinedUser(r, op.a(2))
		if s == "" {
			return
		}
		var cand []string
		for _, id := range h.uord {
			m := r.member(id)
			if id != s && (op.K != "unban" && (m == "join" || m == "invite") || op.K == "unban" && m == "ban") {
				cand = append(cand, id)
			}
		}
		if len(cand) > 0 {
			to := "leave"
			if op.K == "ban" {
				to = "ban"
			}
			h.setMember(r, s, cand[op.a(1)%len(cand)], to, 0)
		}
	case "invite":
		r, u := w.room(op.a(0)), w.local(op.a(1))
		if r == nil {
			return
		}
		if m := r.member(u.id); m == "" || m == "leave" {
			if s := w.joinedUser(r, op.a(2)); s != "" {
				h.setMember(r, s, u.id, "invite", op.a(3))
			}
		}
	case "rejoin": // leave and join back at once
		r := w.room(op.a(0))
		if r == nil {
			return
		}
		if js := r.joined(); len(js) > 1 {
			u := js[op.a(1)%len(js)]
			h.setMember(r, u, u, "leave", 0)
			if op.a(2)%2 == 0 {
				if s := w.joinedUser(r, op.a(3)); s != "" {
					w.message(r, s, op.a(3))
				}
			}
			h.setMember(r, u, u, "join", op.a(2))
		}
	case "redact":
		r := w.room(op.a(0))
		if r == nil {
			return
		}
		s := w.joinedUser(r, op.a(1))
		if s == "" {
			return
		}
		var cand []*hsEvent
		for _, e := range r.events {
			if !e.redacted && e.typ != "m.room.create" && e.typ != "m.room.redaction" && e.typ != "m.room.power_levels" && e.typ != "m.room.member" && e.typ != "m.room.encryption" && e.typ != "m.space.child" && e.typ != "m.room.tombstone" {
				if !e.isState() || op.a(3)%3 == 0 {
					cand = append(cand, e)
				}
			}
		}
		if len(cand) > 0 {
			i := len(cand) - 1 - op.a(2)%len(cand)%5
			if i < 0 {
				i = 0
			}
			h.redact(r, s, cand[i])
		}
	case "upgrade":
		r := w.room(op.a(0))
		if r == nil || r.typ != "" || r.get("m.room.tombstone", "") != nil {
			return
		}
		s := w.joinedUser(r, op.a(1))
		if s == "" {
			return
		}
		nr := h.newRoom("")
		h.send(nr, s, "m.room.create", sk(""), map[string]interface{}{"creator": s, "room_version": "10", "predecessor": map[string]interface{}{"room_id": r.id, "event_id": "$x"}})
		h.setMember(nr, s, s, "join", op.a(2)+1)
		nr.pred = r.id
		h.send(r, s, "m.room.tombstone", sk(""), map[string]interface{}{"body": "moved", "replacement_room": nr.id})
		for i, u := range r.joined() {
			if u != s && op.a(3)>>(i%8)&1 == 0 {
				h.setMember(nr, u, u, "join", op.a(2))
			}
		}
	case "space":
		var sp *hsRoom
		rs := w.rooms()
		for i := range rs {
			if x := rs[(i+op.a(0))%len(rs)]; x.typ == "m.space" && len(x.joined()) > 0 {
				sp = x
				break
			}
		}
		child := w.room(op.a(1))
		if sp == nil || child == nil || sp == child {
			return
		}
		c := map[string]interface{}{}
		if old := sp.get("m.space.child", child.id); old == nil || len(viaOf(old)) == 0 {
			c["via"] = []string{"hs"}
		}
		h.send(sp, w.joinedUser(sp, op.a(2)), "m.space.child", sk(child.id), c)
	case "acct":
		u := w.local(op.a(0))
		room := ""
		if op.a(1)%2 == 1 {
			if r := w.roomOf(u, op.a(2)); r != nil && r.member(u.id) == "join" {
				room = r.id
			}
		}
		h.setAccountData(u, room, fmt.Sprintf("com.x.type%d", op.a(3)%3), w.adMark(u))
	case "tag":
		u := w.local(op.a(0))
		r := w.roomOf(u, op.a(1))
		if r == nil || r.member(u.id) != "join" {
			return
		}
		c := `{"tags":{}}`
		switch op.a(2) % 4 {
		case 0:
			c = `{"tags":{"m.favourite":{"order":0.5}}}`
		case 1:
			c = `{"tags":{"m.lowpriority":{"order":0.5}}}`
		case 2:
			c = `{"tags":{"m.favourite":{},"u.x":{}}}`
		}
		h.setAccountData(u, r.id, "m.tag", c)
	case "direct":
		u, r := w.local(op.a(0)), w.room(op.a(1))
		if r != nil {
			w.setDirect(u, w.user(op.a(2)).id, r.id, !u.direct[r.id])
		}
	case "ignore":
		u, o := w.local(op.a(0)), w.user(op.a(1))
		if u == o {
			return
		}
		if u.ignored[o.id] {
			delete(u.ignored, o.id)
		} else {
			u.ignored[o.id] = true
			u.everIgnored[o.id] = true
		}
		m := map[string]map[string]string{}
		for k := range u.ignored {
			m[k] = map[string]string{}
		}
		b, _ := json.Marshal(map[string]interface{}{"ignored_users": m})
		h.setAccountData(u, "", "m.ignored_user_list", string(b))
	case "receipt":
		r := w.room(op.a(0))
		if r == nil {
			return
		}
		s := w.joinedUser(r, op.a(1))
		if s == "" {
			return
		}
		lo := len(r.events) - 1 - op.a(2)%4
		if lo < 0 {
			lo = 0
		}
		typ, thread := "m.read", ""
		if op.a(3)%4 == 0 && h.users[s].local {
			typ = "m.read.private"
		}
		if op.a(4)%5 == 0 {
			thread = "$thread"
		}
		for _, rc := range r.receipts {
			if rc.user == s && rc.typ == typ && rc.thread != thread && rc.eventID == r.events[lo].id {
				return // a receipt event has only one slot for these two
			}
		}
		h.addReceipt(r, s, r.events[lo].id, typ, thread)
	case "typing":
		rs := []*hsRoom{w.room(op.a(0))}
		if op.a(3)%4 == 0 { // in several rooms at once
			rs = rs[:0]
			for i := 0; i < 3; i++ {
				if r := w.room(op.a(0) + i); r != nil && (i == 0 || r != rs[0]) {
					rs = append(rs, r)
				}
			}
		}
		for n, r := range rs {
			if r == nil {
				continue
			}
			var us []string
			for i, u := range r.joined() {
				if (op.a(1)+n)>>(i%10)&1 == 1 {
					us = append(us, u)
				}
			}
			h.setTyping(r, us)
		}
	case "unread":
		u := w.local(op.a(0))
		r := w.roomOf(u, op.a(1))
		if r == nil || r.member(u.id) != "join" {
			return
		}
		ur := u.unread[r.id]
		if ur == nil {
			ur = &unread{}
			u.unread[r.id] = ur
		}
		ur.notif = op.a(2) % 6
		ur.high = 0
		if ur.notif > 0 {
			ur.high = op.a(3) % (ur.notif + 1)
		}
		ur.seq = h.bump()
		w.k.logf("hs: unread %s %s = %d/%d", u.id, r.id, ur.notif, ur.high)
		w.hsChanged()
	case "todev":
		if d := w.device(op.a(0)); d != nil {
			n := 1
			if op.a(2)%4 == 0 {
				n = 2 + op.a(2)%7
			}
			for i := 0; i < n; i++ {
				h.sendToDevice(d, []string{"m.room.encrypted", "m.room_key_request", "com.x.td"}[op.a(1)%3])
			}
		}
	case "keyreq": // a room key request goes to several devices
		q := &keyReq{id: fmt.Sprintf("rq%d", len(h.keyReqs))}
		for i, d := range h.devices() {
			if !d.deleted && (op.a(0)>>uint(i)&1 == 1 || i == op.a(1)%len(h.devices())) {
				q.devs = append(q.devs, d)
				q.sent = append(q.sent, h.keyRequest(d, q.id, nil))
			}
		}
		if len(q.devs) > 0 {
			h.keyReqs = append(h.keyReqs, q)
		}
	case "keycancel": // withdrawn for some of them
		if n := len(h.keyReqs); n > 0 {
			q := h.keyReqs[max0(n-1-op.a(0)%3)]
			for i, d := range q.devs {
				if q.sent[i].gone == nil && (op.a(1)>>uint(i)&1 == 1 || i == op.a(2)%len(q.devs)) {
					h.keyRequest(d, q.id, q.sent[i])
				}
			}
		}
	case "devlist":
		h.deviceListChange(w.user(op.a(0)))
	case "otk":
		if d := w.device(op.a(0)); d != nil {
			d.otk = op.a(1) % 60
			d.otkSeq = h.bump()
			w.hsChanged()
		}
	case "fallback":
		if d := w.device(op.a(0)); d != nil {
			if len(d.fallback) == 0 {
				d.fallback = []string{"signed_curve25519"}
			} else {
				d.fallback = []string{}
			}
			d.otkSeq = h.bump()
			w.hsChanged()
		}
	case "txn":
		d, r := w.device(op.a(0)), w.room(op.a(1))
		if d == nil {
			return
		}
		rs := w.rooms()
		for i := range rs {
			if x := rs[(i+op.a(1))%len(rs)]; x.member(d.user.id) == "join" {
				r = x
				break
			}
		}
		if r == nil || r.member(d.user.id) != "join" {
			return
		}
		w.txnNext, w.txnNextDev = fmt.Sprintf("tx%d", h.nev+1), d
		w.message(r, d.user.id, op.a(2))
		var o *hsDevice
		for _, x := range d.user.devs {
			if x != d && !x.deleted {
				o = x
			}
		}
		if o != nil && op.a(3)%2 == 0 {
			// another device of the user sends at the same time
			w.txnNext, w.txnNextDev = fmt.Sprintf("tx%d", h.nev+1), o
			w.message(r, d.user.id, op.a(2)+1)
		}
		w.txnNext, w.txnNextDev = "", nil
	case "revoke", "rotate", "newdev", "badtok":
		w.tokenOp(op)
	default:
		if strings.HasPrefix(op.K, "c_") {
			w.netOp(op)
		} else if w.faultOp(op) || w.clientOp(op) {
		} else {
			fatalf("unknown op %s", op.K)
		}
	}
}

func viaOf(e *hsEvent) []string {
	v, _ := e.content["via"].([]string)
	return v
}

func (w *World) message(r *hsRoom, sender string, variant int) *hsEvent {
	c := map[string]interface{}{"body": "hello " + w.hs.nextMarker(), "msgtype": "m.text"}
	if variant%5 == 0 {
		c["hl"] = true
	}
	typ := "m.room.message"
	if r.enc {
		typ = "m.room.encrypted"
	} else if variant%6 == 1 {
		typ = "m.reaction"
	}
	return w.hs.send(r, sender, typ, nil, c)
}

func (w *World) stateOp(r *hsRoom, s string, which, variant int) {
	h := w.hs
	switch which % 8 {
	case 0, 1:
		n := "N" + r.id[1:strings.Index(r.id, ":")] + " " + h.nextMarker()
		if variant%6 == 0 {
			n = ""
		}
		h.send(r, s, "m.room.name", sk(""), map[string]interface{}{"name": n})
	case 2:
		h.send(r, s, "m.room.topic", sk(""), map[string]interface{}{"topic": "T " + h.nextMarker()})
	case 3:
		u := "mxc://room/" + h.nextMarker()
		if variant%4 == 0 {
			u = ""
		}
		h.send(r, s, "m.room.avatar", sk(""), map[string]interface{}{"url": u})
	case 4:
		a := "#a" + h.nextMarker() + ":hs"
		if variant%4 == 0 {
			a = ""
		}
		h.send(r, s, "m.room.canonical_alias", sk(""), map[string]interface{}{"alias": a})
	case 5:
		h.send(r, s, "com.x.state", sk(fmt.Sprintf("k%d", variant%3)), map[string]interface{}{"v": variant})
	case 6:
		if !r.enc && variant%3 == 0 {
			h.send(r, s, "m.room.encryption", sk(""), map[string]interface{}{"algorithm": "m.megolm.v1.aes-sha2"})
		} else {
			h.send(r, s, "m.room.topic", sk(""), map[string]interface{}{"topic": "T " + h.nextMarker()})
		}
	case 7:
		h.send(r, s, "m.room.join_rules", sk(""), map[string]interface{}{"join_rule": []string{"public", "invite"}[variant%2]})
	}
}

// ---- devices and tokens ----

func (w *World) tokenOp(op *Op) {
	d := w.device(op.a(0))
	if d == nil {
		return
	}
	w.tokenOps = true
	switch op.K {
	case "rotate":
		w.hs.rotate(d)
		if op.a(1)%2 == 0 {
			d.dead[d.oldToks[len(d.oldToks)-1]] = true
		}
		for _, c := range w.clients {
			if c.dev == d && !c.bogus && (op.a(2)%3 != 0 || d.dead[c.tok]) {
				c.tok = d.token
			}
		}
		w.hsChanged()
	case "newdev":
		if len(d.user.devs) < 4 {
			w.hs.addDevice(d.user, fmt.Sprintf("D%s%d", d.user.devs[0].id[1:2], len(d.user.devs)+4))
		}
	case "badtok":
		c := w.newClient(d, fmt.Sprintf("%s_x%d", d.token, op.a(1)%8))
		c.bogus = true
		c.want.lists["a"] = genList(op)
		go c.loop()
	case "revoke":
		d.deleted = true
		d.dead[d.token] = true
		w.k.logf("hs: device %s/%s logged out", d.user.id, d.id)
		w.hsChanged()
	}
}

// ---- client operations ----

var sorts = [][]string{{"by_recency"}, {"by_name"}, {"by_notification_level", "by_recency"}, {"by_notification_level", "by_name"}, {"by_highlight_count", "by_notification_count", "by_recency"}, {"by_highlight_count", "by_name"}}

var filters = []string{`{}`, `{}`, `{}`, `{"is_dm":true}`, `{"is_dm":false}`, `{"is_encrypted":true}`, `{"is_encrypted":false}`, `{"is_invite":true}`, `{"is_invite":false}`, `{"not_tags":["m.lowpriority"]}`, `{"tags":["m.favourite"]}`, `{"not_room_types":["m.space"]}`, `{"room_types":["m.space"]}`, `{"room_name_like":"r1"}`}

var reqStates = [][][2]string{
	{{"*", "*"}},
	{{"m.room.name", ""}, {"m.room.topic", ""}, {"m.room.member", "$ME"}},
	{{"m.room.member", "$LAZY"}, {"m.room.encryption", ""}, {"m.room.create", ""}},
	{{"m.room.member", "*"}, {"m.room.avatar", ""}},
	{{"com.x.state", "*"}, {"m.room.name", "*"}, {"m.space.child", "*"}},
}

func genRanges(a, b int) [][2]int {
	n := []int{0, 1, 2, 4, 9, 20}[a%6]
	rs := [][2]int{{0, n}}
	if b%5 == 0 {
		lo := n + 2 + b%3
		rs = append(rs, [2]int{lo, lo + a%4})
	} else if b%7 == 0 {
		lo := 1 + b%3
		rs = [][2]int{{lo, lo + n}}
	}
	return rs
}

func genList(op *Op) *listSpec {
	l := &listSpec{Ranges: genRanges(op.a(1), op.a(2)), Sort: sorts[op.a(3)%len(sorts)], Filters: json.RawMessage(filters[op.a(4)%len(filters)]),
		State: reqStates[(op.a(2)/8)%len(reqStates)], TL: []int{1, 2, 5, 10, 20}[(op.a(3)/8)%5]}
	if op.a(1)%16 == 7 {
		t := true
		l.Slow = &t
		l.Ranges = [][2]int{{0, 1}}
	}
	if op.a(1)%8 == 3 {
		l.Bump = []string{"m.room.message", "m.room.encrypted"}
	}
	if op.a(2)%3 == 1 {
		t := true
		l.Heroes = &t
	}
	if op.a(3)%4 == 2 {
		l.Old = &subSpec{reqStates[op.a(2)/4%len(reqStates)], 1 + op.a(3)/4%3}
	}
	return l
}

func (w *World) clientOp(op *Op) bool {
	if op.K == "connect" {
		d := w.anyDevice(op.a(0))
		if d == nil {
			return true
		}
		n := 0
		for _, c := range w.clients {
			if !c.closed && !c.fresh {
				n++
			}
		}
		if n >= 5 {
			return true
		}
		c := w.newClient(d, d.token)
		c.timeout = []int{0, 200, 2000, 10000, 30000}[op.a(4)/16%5]
		c.think = []int{0, 5, 50, 500}[op.a(3)/64%4]
		c.e2ee = !d.e2eeTaken
		c.td = !d.e2eeTaken
		d.e2eeTaken = true
		c.want.lists["a"] = genList(op)
		if op.a(4)%3 == 0 {
			c.want.lists["b"] = genList(&Op{A: []int{0, op.a(2), op.a(3), op.a(4), op.a(1)}})
		}
		w.k.logf("%s: new client, lists %s", c.name(), js(c.want.lists))
		go c.loop()
		return true
	}
	c := w.client(op.a(0))
	switch op.K {
	case "range", "sort", "filter", "tlimit", "addlist", "dellist", "sub", "unsub", "reset", "close":
	default:
		return false
	}
	if c == nil {
		return true
	}
	keys := sortedKeys(c.want.lists)
	mod := func(f func(l *listSpec)) {
		if len(keys) == 0 {
			return
		}
		k := keys[op.a(1)%len(keys)]
		l := *c.want.lists[k]
		f(&l)
		c.want.lists[k] = &l
	}
	switch op.K {
	case "range":
		mod(func(l *listSpec) {
			if l.Slow == nil {
				l.Ranges = genRanges(op.a(2), op.a(3))
			}
		})
	case "sort":
		mod(func(l *listSpec) { l.Sort = sorts[op.a(2)%len(sorts)] })
	case "filter":
		mod(func(l *listSpec) { l.Filters = json.RawMessage(filters[op.a(2)%len(filters)]) })
	case "tlimit":
		mod(func(l *listSpec) {
			l.TL = []int{1, 3, 8, 20}[op.a(2)%4]
			if op.a(3)%2 == 0 {
				l.State = reqStates[op.a(3)/2%len(reqStates)]
			}
		})
	case "addlist":
		k := []string{"a", "b", "c"}[op.a(4)%3]
		if c.want.lists[k] == nil && !c.deleted[k] {
			c.want.lists[k] = genList(op)
		}
	case "dellist":
		if len(keys) > 1 {
			k := keys[op.a(1)%len(keys)]
			delete(c.want.lists, k)
			c.deleted[k] = true
		}
	case "sub":
		if r := w.room(op.a(1)); r != nil {
			c.want.subs[r.id] = &subSpec{reqStates[op.a(2)%len(reqStates)], []int{1, 2, 5, 20}[op.a(3)%4]}
		}
	case "unsub":
		if ks := sortedKeys(c.want.subs); len(ks) > 0 {
			delete(c.want.subs, ks[op.a(1)%len(ks)])
		}
	case "reset":
		c.wantReset = true
	case "close":
		c.closed = true
		if c.e2ee {
			c.dev.e2eeTaken = false
		}
	}
	if op.a(4)%2 == 0 {
		select {
		case c.poke <- "interrupt":
		default:
		}
	}
	return true
}

func (w *World) netOp(op *Op) {
	c := w.client(op.a(0))
	if c == nil {
		return
	}
	switch op.K {
	case "c_interrupt":
		select {
		case c.poke <- "interrupt":
		default:
		}
	case "c_pause":
		ms := []int{500, 3000, 20000, 90000}[op.a(1)%4]
		c.pauseTo = time.Now().Add(time.Duration(ms) * time.Millisecond)
		if ms > 60000 {
			w.k.faultN["client_stalled"]++
		}
	case "c_sleep": // long enough for the proxy to consider the connection idle
		c.pauseTo = time.Now().Add(time.Duration(31+op.a(1)%40) * time.Minute)
		w.slowClient = true
		w.k.faultN["client_stalled"]++
	default:
		c.nextFault = op.K
	}
}

// ---- faults ----

func (w *World) faultOp(op *Op) bool {
	now := time.Now()
	switch op.K {
	case "crash":
		w.crash("killed")
	case "crash_write":
		if w.up {
			w.crashIn = 1 + op.a(0)%12
			w.crashCommitOnly = op.a(1)%2 == 0
		}
	case "db_win":
		w.dbWinEnd = now.Add(time.Duration(50+op.a(0)%5000) * time.Millisecond)
		w.dbWinP = []float64{0.02, 0.1, 0.4, 1}[op.a(1)%4]
	case "db_one":
		w.oneDB = append(w.oneDB, &oneShot{n: 1 + op.a(0)%10, kind: []string{"write", "any", "commit", "read"}[op.a(1)%4], arg: 1 + op.a(2)%4})
	case "db_down":
		w.dbDownUntil = now.Add(time.Duration(100+op.a(0)%8000) * time.Millisecond)
		w.k.faultN["db_down"]++
	case "hs_win":
		w.hsWinEnd = now.Add(time.Duration(50+op.a(0)%15000) * time.Millisecond)
		w.hsWinP = []float64{0.1, 0.4, 1}[op.a(1)%3]
	case "hs_one":
		w.oneHS = append(w.oneHS, &oneShot{n: 1 + op.a(0)%6, arg: op.a(1)})
	case "hs_down":
		w.hsDownUntil = now.Add(time.Duration(100+op.a(0)*5%20000) * time.Millisecond)
	default:
		return false
	}
	return true
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}
