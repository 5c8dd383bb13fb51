package models

import (
	"time"

	"github.com/lyraproj/hiera/zzverif/sym"
)

// Time passes when nothing else can go on.

type timer struct {
	at    time.Duration
	ch    chan time.Time
	f     func()
	every time.Duration
	left  int // how often a ticker ticks yet
}

var (
	now     time.Duration
	timers  []*timer
	ticking bool
	timerOf map[*time.Timer]*timer
	tickOf  map[*time.Ticker]*timer
)

//override:time.Now
func timeNow() time.Time { return time.Unix(1700000000, 0).UTC().Add(now) }

//override:time.Since
func timeSince(t time.Time) time.Duration { return timeNow().Sub(t) }

//override:time.Until
func timeUntil(t time.Time) time.Duration { return t.Sub(timeNow()) }

func start(t *timer) {
	timers = append(timers, t)
	if !ticking {
		ticking = true
		go tick()
	}
}

func remove(t *timer) bool {
	for i, x := range timers {
		if x == t {
			timers = append(append([]*timer(nil), timers[:i]...), timers[i+1:]...)
			return true
		}
	}
	return false
}

func tick() {
	for {
		sym.Quiesce()
		if len(timers) == 0 {
			break
		}
		t := timers[0]
		for _, x := range timers {
			if x.at < t.at {
				t = x
			}
		}
		if t.every > 0 && t.left > 0 {
			t.left--
			t.at += t.every
		} else {
			remove(t)
		}
		if t.at > now {
			now = t.at
		}
		if t.f != nil {
			go t.f()
			continue
		}
		select {
		case t.ch <- timeNow():
		default:
		}
	}
	ticking = false
}

//override:time.After
func timeAfter(d time.Duration) <-chan time.Time {
	t := &timer{at: now + d, ch: make(chan time.Time, 1)}
	start(t)
	return t.ch
}

//override:time.NewTimer
func newTimer(d time.Duration) *time.Timer {
	t := &timer{at: now + d, ch: make(chan time.Time, 1)}
	start(t)
	return known(t)
}

func known(t *timer) *time.Timer {
	if timerOf == nil {
		timerOf = map[*time.Timer]*timer{}
	}
	r := &time.Timer{C: t.ch}
	timerOf[r] = t
	return r
}

//override:time.AfterFunc
func timeAfterFunc(d time.Duration, f func()) *time.Timer {
	t := &timer{at: now + d, f: f}
	start(t)
	return known(t)
}

// override:(*time.Timer).Stop
func timerStop(r *time.Timer) bool {
	return remove(timerOf[r])
}

// override:(*time.Timer).Reset
func timerReset(r *time.Timer, d time.Duration) bool {
	ok := timerStop(r)
	t := timerOf[r]
	t.at = now + d
	start(t)
	return ok
}

//override:time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	if tickOf == nil {
		tickOf = map[*time.Ticker]*timer{}
	}
	t := &timer{at: now + d, ch: make(chan time.Time, 1), every: d, left: 100}
	start(t)
	r := &time.Ticker{C: t.ch}
	tickOf[r] = t
	return r
}

//override:time.Tick
func timeTick(d time.Duration) <-chan time.Time { return newTicker(d).C }

// override:(*time.Ticker).Stop
func tickerStop(r *time.Ticker) { remove(tickOf[r]) }

//override:time.Sleep
func timeSleep(d time.Duration) { <-timeAfter(d) }
