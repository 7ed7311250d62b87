package main

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/lib/pq"
)

// simDriver stands in for lib/pq's registration under "postgres". Each
// connection is a real PostgreSQL session, but every statement is a gate: it is
// executed by the scheduler, one at a time, while every goroutine of the system
// under test is blocked. The order in which concurrent sessions' statements
// reach the server is therefore a seeded decision.
type simDriver struct {
	k     *kernel
	dsn   string
	conns []*simConn
	next  int
	inj   func(c *simConn, g *gate, op, q string) dbFault
	w     *World
	pool  []driver.Conn // idle server sessions
}

type dbFault int

const (
	dbOK         dbFault = iota
	dbErr                // the statement fails with a server error; nothing happened
	dbDropBefore         // connection lost before the statement reached the server
	dbDropAfter          // connection lost after the server executed it (ambiguous)
	dbStall              // the statement is delayed
)

func (f dbFault) String() string {
	return [...]string{"ok", "db_error", "db_conn_lost_before", "db_conn_lost_after", "db_stall"}[f]
}

type simConn struct {
	d      *simDriver
	id     int
	gen    uint32
	real   driver.Conn
	inTx   bool
	bad    bool
	doomed bool // transaction aborted by the server
}

func (d *simDriver) Open(name string) (driver.Conn, error) {
	c := &simConn{d: d, gen: rtGetGen()}
	var err error
	g := &gate{kind: "db", desc: "connect", tag: rtGetTag(), origin: origin()}
	g.run = func() bool {
		d.next++
		c.id = d.next
		if f := d.inj(c, g, "connect", ""); f == dbErr || f == dbDropBefore || f == dbDropAfter {
			err = &net.OpError{Op: "dial", Net: "unix", Err: syscall.ECONNREFUSED}
			return true
		}
		c.real, err = d.realOpen()
		if err == nil {
			d.conns = append(d.conns, c)
		}
		return true
	}
	d.k.enter(nil, g)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (d *simDriver) realOpen() (driver.Conn, error) {
	if n := len(d.pool); n > 0 {
		rc := d.pool[n-1]
		d.pool = d.pool[:n-1]
		return rc, nil
	}
	rc, err := pq.Open(d.dsn)
	if err != nil {
		fatalf("cannot open a PostgreSQL session: %v", err)
	}
	for _, s := range []string{"SET lock_timeout='4ms'", "SET max_parallel_workers_per_gather=0", "SET synchronize_seqscans=off", "SET jit=off"} {
		if _, err := rc.(driver.ExecerContext).ExecContext(context.Background(), s, nil); err != nil {
			fatalf("session setup: %v", err)
		}
	}
	return rc, nil
}

// abandon ends the server session, rolling back whatever was open.
func (c *simConn) abandon() {
	if c.real == nil {
		return
	}
	if c.inTx {
		c.rawExec("ROLLBACK")
	}
	c.inTx = false
	c.bad = true
	// what a dead session leaves behind is exactly what a rolled back, idle one
	// does, so the server process can be reused
	if err := c.rawExec("DISCARD TEMP"); err != nil {
		fatalf("discard: %v", err)
	}
	c.d.pool = append(c.d.pool, c.real)
	c.real = nil
	for i, x := range c.d.conns {
		if x == c {
			c.d.conns = append(c.d.conns[:i:i], c.d.conns[i+1:]...)
			break
		}
	}
	c.d.txEnded()
}

// crash ends every session of generations below gen.
func (d *simDriver) crash(gen uint32) {
	for _, c := range append([]*simConn(nil), d.conns...) {
		if c.gen != 0 && c.gen < gen {
			c.abandon()
		}
	}
}

func (d *simDriver) txEnded() {
	for _, g := range d.k.gates {
		g.blocked = false
	}
}

func (d *simDriver) othersInTx(c *simConn) bool {
	for _, x := range d.conns {
		if x != c && x.inTx {
			return true
		}
	}
	return false
}

func (c *simConn) rawExec(q string) error {
	_, err := c.real.(driver.ExecerContext).ExecContext(context.Background(), q, nil)
	return err
}

// origin tells on whose behalf the calling goroutine works: the pollers ("v2"),
// an extension, the client-facing side ("v3"), or neither.
func origin() string {
	var pcs [64]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	o, be := "", ""
	for {
		f, more := fr.Next()
		if i := strings.Index(f.Function, "/sliding-sync/"); i >= 0 {
			switch r := f.Function[i+len("/sliding-sync/"):]; {
			case strings.HasPrefix(r, "sync2"):
				o = "v2"
				if strings.HasSuffix(r, ".OnReceipt") || strings.HasSuffix(r, ".UpdateUnreadCounts") || strings.HasSuffix(r, ".SetTyping") {
					be = "-besteffort" // these calls cannot report an error to the poller
				}
			case strings.HasPrefix(r, "sync3/extensions"):
				return "ext"
			case strings.HasPrefix(r, "sync3"):
				if o == "" {
					o = "v3"
				}
			}
		}
		if !more {
			return o + be
		}
	}
}

type dbResult struct {
	cols []string
	rows [][]driver.Value
	res  driver.Result
	err  error
}

var errConnLost = &net.OpError{Op: "read", Net: "unix", Err: syscall.ECONNRESET}

// do runs one operation of this session behind a gate.
func (c *simConn) do(ctx context.Context, op, q string, args []driver.NamedValue) *dbResult {
	if c.bad || c.real == nil {
		return &dbResult{err: driver.ErrBadConn}
	}
	out := &dbResult{}
	k := c.d.k
	g := &gate{kind: "db", desc: fmt.Sprintf("c%d %s %s", c.id, op, brief(q)), tag: rtGetTag(), origin: origin()}
	if n := c.d.w.cfg.DBMS; n > 0 {
		g.ready = time.Now().Add(time.Duration(k.sched.n(n*1000)) * time.Microsecond)
	}
	injected := dbOK
	decided := false
	g.run = func() bool {
		if c.bad || c.real == nil {
			out.err = driver.ErrBadConn
			return true
		}
		if g.deadlock {
			c.rawExec("SELECT 1/0")
			c.doomed = true
			out.err = &pq.Error{Severity: "ERROR", Code: "40P01", Message: "deadlock detected"}
			return true
		}
		if !decided {
			decided = true
			injected = c.d.inj(c, g, op, q)
			if injected == dbStall {
				injected = dbOK
				g.stalled = true
				d := time.Duration(k.fault.rng(50, 9000)) * time.Millisecond
				g.ready = time.Now().Add(d)
				k.logf("db stall %v: %s", d, g.desc)
				return false
			}
		}
		if injected != dbOK && injected != dbStall && strings.Contains(q, "syncv3_txns") {
			k.txnFault = true // a failure to store transaction IDs isn't retried
		}
		switch injected {
		case dbDropBefore:
			k.logf("db conn lost before: %s", g.desc)
			c.abandon()
			out.err = driver.ErrBadConn
			return true
		case dbErr:
			k.logf("db error: %s", g.desc)
			if op == "COMMIT" {
				c.rawExec("ROLLBACK")
				c.inTx, c.doomed = false, false
				c.d.txEnded()
			} else if c.inTx && !c.doomed {
				c.rawExec("SELECT 1/0") // the server aborts the transaction on any error
				c.doomed = true
			}
			out.err = &pq.Error{Severity: "ERROR", Code: "53100", Message: "could not extend file: No space left on device (injected)"}
			return true
		}
		save := c.inTx && !c.doomed && (op == "query" || op == "exec") && c.d.othersInTx(c) && maybeLocks(q)
		if save {
			c.rawExec("SAVEPOINT simsp")
		}
		c.exec(op, q, args, out)
		if isLockTimeout(out.err) {
			if save {
				if err := c.rawExec("ROLLBACK TO SAVEPOINT simsp"); err != nil {
					fatalf("savepoint: %v", err)
				}
			} else if c.inTx {
				fatalf("lock timeout inside a transaction without savepoint: %s", q)
			}
			if !c.d.othersInTx(c) {
				fatalf("lock timeout with no other transaction open: %s", q)
			}
			*out = dbResult{}
			g.blocked = true
			k.probe["db_lock_wait"]++
			k.logf("db lock wait: %s", g.desc)
			c.d.checkDeadlock()
			return false
		}
		if save {
			if out.err == nil {
				c.rawExec("RELEASE SAVEPOINT simsp")
			}
		}
		if out.err != nil && c.inTx {
			c.doomed = true
		}
		if injected == dbDropAfter {
			k.logf("db conn lost after: %s", g.desc)
			*out = dbResult{err: errConnLost}
			c.abandon()
			return true
		}
		return true
	}
	if !k.enter(ctx, g) {
		// the statement never ran; lib/pq kills the session of a cancelled statement
		gg := &gate{kind: "db", desc: fmt.Sprintf("c%d cancel", c.id)}
		gg.run = func() bool { c.abandon(); return true }
		k.enter(nil, gg)
		return &dbResult{err: ctx.Err()}
	}
	if k.traceDB {
		k.logf("db %s [%s] %v", g.desc, g.origin, args)
	}
	if out.err != nil {
		k.logf("db result error: %s: %v", g.desc, out.err)
	}
	return out
}

// checkDeadlock aborts one blocked transaction when every open transaction is
// itself waiting for a lock, as the server's deadlock detector would.
func (d *simDriver) checkDeadlock() {
	open := map[int]bool{}
	for _, c := range d.conns {
		if c.inTx {
			open[c.id] = true
		}
	}
	n := 0
	for _, g := range d.k.gates {
		if g.blocked {
			n++
		}
	}
	if n < len(open) || len(open) == 0 {
		return
	}
	blockedTx := 0
	var victim *gate
	for _, g := range d.k.gates {
		var id int
		if g.blocked {
			fmt.Sscanf(g.desc, "c%d ", &id)
			if open[id] {
				blockedTx++
				victim = g
			}
		}
	}
	if blockedTx < len(open) || victim == nil {
		return
	}
	d.k.probe["db_deadlock"]++
	d.k.logf("db deadlock: victim %s", victim.desc)
	victim.blocked = false
	victim.deadlock = true
}

func (c *simConn) exec(op, q string, args []driver.NamedValue, out *dbResult) {
	bg := context.Background()
	switch op {
	case "BEGIN":
		out.err = c.rawExec("BEGIN")
		if out.err == nil {
			c.inTx, c.doomed = true, false
		}
	case "COMMIT", "ROLLBACK":
		out.err = c.rawExec(op)
		if op == "COMMIT" && c.doomed {
			out.err = errors.New("pq: Could not complete operation in a failed transaction")
		}
		c.inTx, c.doomed = false, false
		c.d.txEnded()
	case "exec":
		out.res, out.err = c.real.(driver.ExecerContext).ExecContext(bg, q, args)
	case "query":
		rows, err := c.real.(driver.QueryerContext).QueryContext(bg, q, args)
		if err != nil {
			out.err = err
			return
		}
		out.cols = rows.Columns()
		for {
			dest := make([]driver.Value, len(out.cols))
			if err := rows.Next(dest); err == io.EOF {
				break
			} else if err != nil {
				out.err = err
				break
			}
			for i, v := range dest {
				if b, ok := v.([]byte); ok {
					dest[i] = append([]byte{}, b...)
				}
			}
			out.rows = append(out.rows, dest)
		}
		rows.Close()
	}
}

func isLockTimeout(err error) bool {
	var pe *pq.Error
	return errors.As(err, &pe) && pe.Code == "55P03"
}

func maybeLocks(q string) bool {
	s := strings.ToUpper(strings.TrimSpace(q))
	return !strings.HasPrefix(s, "SELECT") || strings.Contains(s, "FOR UPDATE") || strings.Contains(s, "NEXTVAL")
}

func brief(q string) string {
	q = strings.Join(strings.Fields(q), " ")
	if len(q) > 70 {
		q = q[:70]
	}
	return q
}

// ---- database/sql/driver plumbing ----

func (c *simConn) Prepare(query string) (driver.Stmt, error) { return &simStmt{c, query}, nil }
func (c *simConn) Close() error {
	if c.bad || c.real == nil {
		return nil
	}
	if rtGetGen() != 0 && rtGetGen() < c.d.k.curGen {
		select {}
	}
	g := &gate{kind: "db", desc: fmt.Sprintf("c%d close", c.id)}
	g.run = func() bool { c.abandon(); return true }
	c.d.k.enter(nil, g)
	return nil
}
func (c *simConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *simConn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	if opts.Isolation != 0 || opts.ReadOnly {
		fatalf("BeginTx: options not supported by the simulated driver")
	}
	r := c.do(ctx, "BEGIN", "", nil)
	if r.err != nil {
		return nil, r.err
	}
	return &simTx{c}, nil
}
func (c *simConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	r := c.do(ctx, "exec", q, args)
	return r.res, r.err
}
func (c *simConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r := c.do(ctx, "query", q, args)
	if r.err != nil {
		return nil, r.err
	}
	return &simRows{r: r}, nil
}
func (c *simConn) CheckNamedValue(nv *driver.NamedValue) error {
	var err error
	nv.Value, err = driver.DefaultParameterConverter.ConvertValue(nv.Value)
	return err
}
func (c *simConn) IsValid() bool { return !c.bad }
func (c *simConn) ResetSession(context.Context) error {
	if c.bad {
		return driver.ErrBadConn
	}
	return nil
}
func (c *simConn) Ping(ctx context.Context) error { return c.do(ctx, "exec", ";", nil).err }

type simStmt struct {
	c *simConn
	q string
}

func (s *simStmt) Close() error  { return nil }
func (s *simStmt) NumInput() int { return -1 }
func (s *simStmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(args))
}
func (s *simStmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(args))
}
func (s *simStmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, args)
}
func (s *simStmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, args)
}
func named(args []driver.Value) []driver.NamedValue {
	out := make([]driver.NamedValue, len(args))
	for i, a := range args {
		out[i] = driver.NamedValue{Ordinal: i + 1, Value: a}
	}
	return out
}

type simTx struct{ c *simConn }

func (t *simTx) Commit() error   { return t.c.do(context.Background(), "COMMIT", "", nil).err }
func (t *simTx) Rollback() error { return t.c.do(context.Background(), "ROLLBACK", "", nil).err }

type simRows struct {
	r *dbResult
	i int
}

func (r *simRows) Columns() []string { return r.r.cols }
func (r *simRows) Close() error      { return nil }
func (r *simRows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	copy(dest, r.r.rows[r.i])
	r.i++
	return nil
}
