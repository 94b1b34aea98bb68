// Package verifhook is added to the library's module by a build overlay (it
// is not part of /repo). The instrumenter inserts a call of P before every
// statement of the library's packages; P perturbs the schedule there.
//
// Nothing in here may synchronize goroutines in the eyes of the race
// detector: an atomic or a lock in P would hide the library's own races.
// Hence plain variables in functions marked norace.
package verifhook

import (
	"math/rand/v2"
	"runtime"
	"time"
)

// Modes of perturbation.
const (
	Off = iota
	Random
	Stall
)

const MaxSites = 4096

var (
	mode    int
	density int // one in density calls perturbs
	site    int // Stall: the site to stall at
	stallNs int64
	budget  int // perturbations left
	hits    [MaxSites]uint32
	fired   uint64
)

// Set selects the perturbation for what follows.
//
//go:norace
func Set(m, d, s int, ns int64, limit int) {
	mode, density, site, stallNs, budget = m, d, s, ns, limit
}

// Hits returns how many of the first n sites were ever reached, and the number of perturbations.
//
//go:norace
func Hits(n int) (reached int, perturbations uint64) {
	for i := 0; i < n && i < MaxSites; i++ {
		if hits[i] != 0 {
			reached++
		}
	}
	return reached, fired
}

// Reached reports whether a site was reached.
//
//go:norace
func Reached(i int) bool { return hits[i] != 0 }

// P is called before every statement of the instrumented packages.
//
//go:norace
func P(id int) {
	if mode == Off {
		return
	}
	perturb(id)
}

//go:norace
func perturb(id int) {
	if hits[id] < 1<<30 {
		hits[id]++
	}
	switch mode {
	case Random:
		r := rand.Uint32()
		if int(r>>8)%density != 0 {
			return
		}
		if budget--; budget < 0 {
			mode = Off
			return
		}
		fired++
		switch r & 7 {
		case 0, 1, 2, 3:
			runtime.Gosched()
		case 4, 5:
			for i := 0; i < int(r>>28)+1; i++ {
				runtime.Gosched()
			}
		default:
			time.Sleep(time.Duration(1+r>>27) * 4 * time.Microsecond)
		}
	case Stall:
		if id != site {
			return
		}
		r := rand.Uint32()
		if int(r>>8)%density != 0 || r&3 == 0 {
			return
		}
		if budget--; budget < 0 {
			mode = Off
			return
		}
		fired++
		time.Sleep(time.Duration(stallNs / int64(1+(r>>4)&3)))
	}
}
