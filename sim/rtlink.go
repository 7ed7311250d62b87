package main

import (
	"database/sql/driver"
	_ "unsafe"
)

// Provided by the patched runtime (see /verif/rt).

//go:linkname rtStart runtime.simStart
func rtStart(schedSeed, rndSeed uint64, yield uint32)

//go:linkname rtSetYield runtime.simSetYield
func rtSetYield(yield uint32)

//go:linkname rtStats runtime.simStats
func rtStats() (hash, switches, yields uint64)

//go:linkname rtSetGen runtime.simSetGen
func rtSetGen(g uint32)

//go:linkname rtGetGen runtime.simGetGen
func rtGetGen() uint32

// rtSetTag marks the calling goroutine and everything it starts.
//
//go:linkname rtSetTag runtime.simSetTag
func rtSetTag(t uint32)

//go:linkname rtGetTag runtime.simGetTag
func rtGetTag() uint32

//go:linkname rtFreeze runtime.simFreeze
func rtFreeze(g uint32)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

// The registry behind sql.Open: the simulator replaces the "postgres" entry.
//
//go:linkname sqlDrivers database/sql.drivers
var sqlDrivers map[string]driver.Driver

//go:linkname rtTrace runtime.simTrace
func rtTrace(n int) []uint64
