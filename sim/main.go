package main

import (
	"context"
	crand "crypto/rand"
	"database/sql/driver"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"

	"github.com/lib/pq"
	"github.com/rs/zerolog"
)

type seededReader struct{ r *prng }

func (s seededReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(s.r.u64() >> 24)
	}
	return len(p), nil
}

// Result is what one run reports.
type Result struct {
	Seed      uint64         `json:"seed"`
	Prof      string         `json:"profile"`
	Viol      []Violation    `json:"violations"`
	Hash      string         `json:"hash"`
	Sched     string         `json:"sched_hash"`
	Switches  uint64         `json:"switches"`
	Yields    uint64         `json:"yields"`
	Steps     int            `json:"steps"`
	VirtualS  float64        `json:"virtual_s"`
	Finds     []Violation    `json:"findings"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Grants    map[string]int `json:"grants"`
	Stats     map[string]int `json:"stats"`
	Ops       int            `json:"ops"`
	Restarts  int            `json:"restarts"`
	Truncated bool           `json:"truncated"`
}

const childEnv = "VERIFSIM_CHILD"

// reexec runs the plan in a new process image, so that a run generated from its seed
// and one replayed from a file start from exactly the same process state.
func reexec(plan []byte) {
	f, err := os.CreateTemp("", "verifsim")
	if err != nil {
		fatalf("%v", err)
	}
	os.Remove(f.Name())
	f.Write(plan)
	f.Seek(0, 0)
	if err := syscall.Dup2(int(f.Fd()), 0); err != nil {
		fatalf("%v", err)
	}
	fatalf("%v", syscall.Exec("/proc/self/exe", os.Args, append(os.Environ(), childEnv+"=1")))
}

func main() {
	seed := flag.Uint64("seed", 1, "")
	prof := flag.String("profile", "mix", "")
	dsn := flag.String("dsn", "", "")
	planFile := flag.String("plan", "", "run this plan file instead of generating one")
	dump := flag.String("dumpplan", "", "write the plan to this file")
	logf := flag.String("log", "", "write the event log to this file")
	trace := flag.Bool("trace", false, "include proxy log lines")
	schedLog := flag.String("schedlog", "", "write the scheduling decisions to this file")
	only := flag.Bool("planonly", false, "only write the plan")
	stop := flag.Bool("stop", false, "stop at the first violation")
	schema := flag.Bool("schema", false, "only let the proxy create its tables")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	runtime.MemProfileRate = 0
	if !*trace {
		zerolog.SetGlobalLevel(zerolog.Disabled)
	}
	p := &Plan{}
	if os.Getenv(childEnv) == "" {
		if *planFile != "" {
			b, err := os.ReadFile(*planFile)
			if err != nil {
				fatalf("%v", err)
			}
			if err := json.Unmarshal(b, p); err != nil {
				fatalf("%v", err)
			}
		} else {
			p = genPlan(*seed, *prof)
		}
		if *schema {
			p.Ops, p.NoFinalRestart = nil, true
		}
		if *stop {
			p.StopAtFirst = true
		}
		b, _ := json.Marshal(p)
		if *dump != "" {
			os.WriteFile(*dump, b, 0644)
		}
		if *only {
			return
		}
		reexec(b)
	}
	b, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(b, p)
	}
	if err != nil {
		fatalf("%v", err)
	}
	resetDB(*dsn)
	log.SetOutput(io.Discard)
	root := &prng{p.Seed}
	crand.Reader = seededReader{root.sub(101)}
	var w *World
	schedSeed, rndSeed := root.sub(1).u64(), root.sub(2).u64()
	synctestRun(func() {
		k := newKernel()
		k.logOn = *logf != ""
		k.sched = root.sub(3)
		k.fault = root.sub(4)
		w = &World{k: k, plan: p, cfg: &p.Cfg, dsn: *dsn, skewR: root.sub(5), opR: root.sub(6), stats: map[string]int{}, limitedRooms: map[string]bool{}}
		if *logf == "" {
			*logf = os.DevNull
		}
		f, err := os.OpenFile(*logf, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
		if err != nil {
			fatalf("%v", err)
		}
		k.logFile = f
		w.hs = newHS(w)
		w.drv = &simDriver{k: k, dsn: *dsn, inj: w.dbFault, w: w}
		sqlDrivers["postgres"] = w.drv
		http.DefaultTransport = &simTransport{w}
		w.traceOn = *trace
		w.k.traceDB = *trace
		if *schedLog != "" {
			rtTrace(1 << 20)
		}
		rtStart(schedSeed, rndSeed, uint32(p.Cfg.Yield))
		w.run()
		res := w.result()
		b, _ := json.Marshal(res)
		fmt.Printf("RESULT %s\n", b)
		if k.logFile != nil {
			k.logFile.Close()
		}
		if *schedLog != "" {
			f, _ := os.Create(*schedLog)
			_, n, _ := rtStats()
			tr := rtTrace(0)
			for i := 1; i <= int(n) && 2*i+1 < len(tr); i++ {
				fmt.Fprintf(f, "%d/%d %s\n", tr[2*i]>>32, tr[2*i]&0xffffffff, runtime.FuncForPC(uintptr(tr[2*i+1])).Name())
			}
			f.Close()
		}
		os.Exit(0)
	})
}

func (w *World) result() *Result {
	h, sw, y := rtStats()
	return &Result{Seed: w.plan.Seed, Prof: w.plan.Prof, Viol: w.viol, Finds: w.finds, Hash: fmt.Sprintf("%016x", w.k.loghash), Sched: fmt.Sprintf("%016x", h), Switches: sw, Yields: y,
		Steps: w.k.steps, VirtualS: w.k.now().Seconds(), Faults: w.k.faultN, Probes: w.k.probe, Grants: w.k.grantN, Stats: w.stats, Ops: w.opIdx, Restarts: w.restarts, Truncated: w.stopped}
}

// resetDB empties the database left behind by the previous run.
func resetDB(dsn string) {
	c, err := pq.Open(dsn)
	if err != nil {
		fatalf("cannot reach PostgreSQL: %v", err)
	}
	defer c.Close()
	q := func(s string) [][]driver.Value {
		rows, err := c.(driver.QueryerContext).QueryContext(context.Background(), s, nil)
		if err != nil {
			fatalf("%s: %v", s, err)
		}
		defer rows.Close()
		var out [][]driver.Value
		for {
			d := make([]driver.Value, len(rows.Columns()))
			if err := rows.Next(d); err == io.EOF {
				return out
			} else if err != nil {
				fatalf("%s: %v", s, err)
			}
			for i, v := range d {
				if b, ok := v.([]byte); ok {
					d[i] = string(b)
				}
			}
			out = append(out, d)
		}
	}
	ts := q("SELECT tablename FROM pg_tables WHERE schemaname='public' AND tablename <> 'goose_db_version' ORDER BY 1")
	if len(ts) > 0 {
		s := "TRUNCATE "
		for i, t := range ts {
			if i > 0 {
				s += ", "
			}
			s += fmt.Sprintf("%s", t[0])
		}
		q(s + " RESTART IDENTITY CASCADE")
	}
	for _, t := range q("SELECT sequencename FROM pg_sequences WHERE schemaname='public' AND sequencename NOT LIKE 'goose%' ORDER BY 1") {
		q(fmt.Sprintf("ALTER SEQUENCE %s RESTART", t[0]))
	}
}
