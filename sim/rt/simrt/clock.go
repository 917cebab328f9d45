package simrt

import "time"

// now0 is what the clock shows outside a simulation (package initialisers
// that run before the first one, and process start-up).
var outside int64

// SetOutside sets the clock reading seen while no simulation runs.
//
//go:norace
func SetOutside(wall int64) { outside = wall }

//go:norace
func tally() {
	if cur != nil {
		t := cur
		a, b, c := t.start[0]-bC, t.start[1]-bG, t.start[2]-bR
		t.cnt[0] += a
		t.cnt[1] += b
		t.cnt[2] += c
		stats.Steps += a + b + c
		mono += (a + b + c) * cfg.Tick
		t.start[0], t.start[1], t.start[2] = bC, bG, bR
	}
}

// Mono is the simulated monotonic clock.
//
//go:norace
func Mono() int64 {
	if active {
		tally()
	}
	return mono
}

// WallNow is the simulated wall clock in unix nanoseconds.
//
//go:norace
func WallNow() int64 {
	if !active {
		return outside
	}
	tally()
	return mono + wallOff
}

// SetWall steps the simulated wall clock.
//
//go:norace
func SetWall(ns int64) {
	tally()
	wallOff = ns - mono
	stats.Jumps++
	if nWalls < len(walls) {
		walls[nWalls] = WallStep{Seq(), mono, wallOff}
		nWalls++
	}
}

// Walls returns the clock settings of the run.
//
//go:norace
func Walls() []WallStep {
	out := make([]WallStep, nWalls)
	for i := 0; i < nWalls; i++ {
		out[i] = walls[i]
	}
	return out
}

// Now replaces time.Now.
//
//go:norace
func Now() time.Time {
	w := WallNow()
	if active {
		stats.ClockReads++
		sinceW[nSince%len(sinceW)] = w
		sinceM[nSince%len(sinceM)] = mono
		nSince++
	}
	return time.Unix(w/1e9, w%1e9)
}

// monoOf finds the monotonic reading that belongs to a time handed out by Now.
//
//go:norace
func monoOf(t time.Time) (int64, bool) {
	w := t.UnixNano()
	for i := nSince - 1; i >= 0 && i >= nSince-len(sinceW); i-- {
		if sinceW[i%len(sinceW)] == w {
			return sinceM[i%len(sinceW)], true
		}
	}
	return 0, false
}

// Since replaces time.Since.
//
//go:norace
func Since(t time.Time) time.Duration {
	now := Now()
	if active {
		if m, ok := monoOf(t); ok {
			return time.Duration(mono - m)
		}
	}
	return now.Sub(t)
}

// Until replaces time.Until.
//
//go:norace
func Until(t time.Time) time.Duration { return -Since(t) }

// Sleep replaces time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	if !Active() {
		return
	}
	Pause(int64(d))
}
