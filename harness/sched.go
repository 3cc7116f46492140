package main

import (
	"fmt"
	"sync/atomic"
	"time"
)

// Sched runs the processes of one concurrent scenario one at a time, in the
// order the scenario says.  A process gives way at every operation on its
// environment (fine), or only at the data interface and the callbacks, or only
// at the operations named in keys.
type Sched struct {
	fine   bool
	keys   map[string]bool
	ev     chan *cproc
	free   bool
	closed int32
}

type cproc struct {
	p    *Proc
	ru   *running
	gate chan struct{}
	idle bool // blocked at a yield
	done bool // finished
	fin  bool // set by the goroutine before its last event
}

func (s *Sched) yield(p *Proc, m string) {
	if s.free || p.cp == nil {
		return
	}
	if len(s.keys) > 0 && !s.keys[m] {
		return
	}
	s.ev <- p.cp
	<-p.cp.gate
}

// wait lets cp run until it gives way again, finishes, or is found to be
// waiting for another process.
func (s *Sched) wait(cp *cproc, limit time.Duration) bool {
	t := time.NewTimer(limit)
	defer t.Stop()
	for {
		select {
		case e := <-s.ev:
			if e.fin {
				e.done = true
			} else {
				e.idle = true
			}
			if e == cp {
				return true
			}
		case <-t.C:
			return false
		}
	}
}

func (s *Sched) grant(cp *cproc) {
	if cp.done || !cp.idle {
		return
	}
	cp.idle = false
	cp.gate <- struct{}{}
	// a process that does not come back waits for another one (or is slow: then
	// the two overlap, which is as good a schedule as any)
	d := 300 * time.Millisecond
	if atomic.LoadInt64(&stuck) > 40 {
		d = 10 * time.Millisecond
	}
	if !s.wait(cp, d) {
		atomic.AddInt64(&stuck, 1)
	}
}

var stuck int64

func runConc(s *Sim, e *Ends, sc *Scenario) {
	sd := &Sched{fine: sc.Conc == "iso", free: sc.Conc == "free", keys: map[string]bool{}, ev: make(chan *cproc, 64)}
	for _, k := range sc.Keys {
		sd.keys[k] = true
	}
	s.conc = true
	atomic.StoreInt64(&s.now, sc.Steps[0].Now)
	atomic.StoreInt64(&lastNow, sc.Steps[0].Now)
	var cps []*cproc
	for i, st := range sc.Steps {
		ru := s.prepare(e, st, i+1)
		cp := &cproc{p: ru.p, ru: ru, gate: make(chan struct{}, 1)}
		ru.p.cp = cp
		ru.p.sched = sd
		cps = append(cps, cp)
	}
	for _, cp := range cps {
		cp := cp
		go func() {
			id := goid()
			simOf.Store(id, s)
			s.mu.Lock()
			s.procs[id] = cp.p
			s.mu.Unlock()
			defer func() {
				if x := recover(); x != nil {
					cp.ru.o.Panic = true
					cp.ru.o.Why = enc(fmt.Sprint(x))
				}
				simOf.Delete(id)
				cp.fin = true
				sd.ev <- cp
			}()
			if !sd.free {
				sd.ev <- cp
				<-cp.gate
			} else {
				<-cp.gate
			}
			cp.ru.body()
		}()
	}
	if sd.free {
		for _, cp := range cps {
			cp.gate <- struct{}{}
		}
	} else {
		for _, cp := range cps {
			if !cp.idle {
				sd.wait(cp, 20*time.Second)
			}
		}
		if sc.Conc == "race" {
			// everything before the first scheduling point is no step of its own
			for _, cp := range cps {
				sd.grant(cp)
			}
		}
		for _, n := range sc.Sched {
			if n >= 1 && n <= len(cps) {
				sd.grant(cps[n-1])
			}
		}
	}
	// let everybody finish, in order
	deadline := time.Now().Add(patience())
	for {
		open := false
		for _, cp := range cps {
			for cp.idle && !cp.done {
				sd.grant(cp)
			}
			if !cp.done {
				open = true
			}
		}
		if !open {
			break
		}
		for _, cp := range cps {
			if !cp.done && !cp.idle {
				sd.wait(cp, 50*time.Millisecond)
			}
		}
		if time.Now().After(deadline) {
			break
		}
	}
	for i, cp := range cps {
		if !cp.done {
			atomic.AddInt64(&hangs, 1)
			sc.Steps[i].Obs = &Obs{Hang: true, Eff: []Eff{}, Screens: []Screen{}, Kind: "none", Resp: Resp{Via: "none", Params: []KV{}}, Chal: Chal{Scheme: "none"}, IdT: readIdT(s.w, "", "", "")}
			continue
		}
		s.finish(cp.ru)
		sc.Steps[i].Obs = cp.ru.o
	}
}
