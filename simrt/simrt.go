// Package simrt is the runtime the instrumented library runs on: scheduling
// points, simulated clock, map iteration order and re-initialisation.
package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// mode is 0 when no simulation is active (scheduling points do nothing).
var mode int32

// Steps counts scheduling points passed in the current run.
var (
	steps     int64
	stepLimit int64
)

// StepLimitError is the panic value when a run exceeds its step budget.
type StepLimitError struct{ Steps int64 }

func (e StepLimitError) Error() string {
	return fmt.Sprintf("no end after %d simulated steps", e.Steps)
}

// Y is an ordinary scheduling point.
//
//go:norace
func Y(site int32) {
	if mode != 0 {
		point(site, false)
	}
}

// H is a scheduling point at a statement touching shared state.
//
//go:norace
func H(site int32) {
	if mode != 0 {
		point(site, true)
	}
}

// MaxSites bounds the coverage map.
const MaxSites = 1 << 16

var cover [MaxSites]uint32

//go:norace
func point(site int32, hot bool) {
	steps++
	if uint32(site) < MaxSites {
		cover[site]++
	}
	if steps > stepLimit {
		stepLimit += 1 << 20 // let the unwinding code run
		panic(StepLimitError{steps})
	}
	if sched != nil {
		sched.point(site, hot)
	}
}

// Begin starts a simulated run without concurrency.
//
//go:norace
func Begin(limit int64) {
	steps, stepLimit = 0, limit
	mode = 1
}

// End stops the simulated run and returns the number of steps.
//
//go:norace
func End() int64 {
	mode = 0
	return steps
}

// Steps returns the number of steps so far.
//
//go:norace
func Steps() int64 { return steps }

// SetStepLimit sets the step budget, counted from now.
//
//go:norace
func SetStepLimit(n int64) { stepLimit = steps + n }

// Covered reports how many distinct sites were reached in this process.
//
//go:norace
func Covered() (n int) {
	for i := range cover {
		if cover[i] > 0 {
			n++
		}
	}
	return
}

// CoverBits returns the reached sites.
//
//go:norace
func CoverBits() []int32 {
	var l []int32
	for i := range cover {
		if cover[i] > 0 {
			l = append(l, int32(i))
		}
	}
	return l
}

// Zero resets a package variable that has no initialiser.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// simulated clock
var (
	clock     = time.Unix(1700000000, 0).UTC()
	ClockRead int64
)

// SetClock sets the simulated clock.
//
//go:norace
func SetClock(t time.Time) { clock = t }

// Now reads the simulated clock.
//
//go:norace
func Now() time.Time { ClockRead++; return clock }

// Since is time.Since on the simulated clock.
//
//go:norace
func Since(t time.Time) time.Duration { ClockRead++; return clock.Sub(t) }

// Sleep advances the simulated clock and yields.
//
//go:norace
func Sleep(d time.Duration) { clock = clock.Add(d); Y(-1) }

// map iteration order: 0 sorted, otherwise a seed for a permutation per iteration.
var (
	mapSeed  uint64
	MapIters int64 // iterations with at least two keys
)

// SetMapOrder selects the iteration order (0: sorted ascending, 1: descending, else permutation seed).
//
//go:norace
func SetMapOrder(seed uint64) uint64 {
	old := mapSeed
	mapSeed, MapIters = seed, 0
	return old
}

//go:norace
func nextMapSeed() uint64 {
	if mapSeed < 2 {
		return mapSeed
	}
	mapSeed = mix(mapSeed)
	if mapSeed < 2 {
		mapSeed = 2
	}
	return mapSeed
}

//go:norace
func countIter() { MapIters++ }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Iter iterates a map in simulator order.
type Iter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
}

// NewIter snapshots the keys; the zero values declare the loop variables.
func NewIter[M ~map[K]V, K comparable, V any](m M) (*Iter[M, K, V], K, V) {
	it := &Iter[M, K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		countIter()
		order(it.keys)
	}
	var k K
	var v V
	return it, k, v
}

// Next advances; keys deleted meanwhile are skipped.
func (it *Iter[M, K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func keyString(k any) string {
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	case reflect.Pointer:
		if !v.IsNil() {
			return fmt.Sprintf("%v", v.Elem())
		}
	}
	return fmt.Sprintf("%v", k)
}

func order[K comparable](keys []K) {
	sk := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		sk[i] = keyString(any(k))
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return sk[idx[a]] < sk[idx[b]] })
	permute(idx)
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

func permute(idx []int) {
	s := nextMapSeed()
	switch {
	case s == 0:
	case s == 1:
		for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	default:
		for i := len(idx) - 1; i > 0; i-- {
			s = mix(s)
			j := int(s % uint64(i+1))
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
}

// OrderKeys orders the result of reflect.Value.MapKeys.
func OrderKeys(l []reflect.Value) []reflect.Value {
	if len(l) > 1 {
		countIter()
	}
	sk := make([]string, len(l))
	idx := make([]int, len(l))
	for i, k := range l {
		sk[i] = keyString(k.Interface())
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return sk[idx[a]] < sk[idx[b]] })
	permute(idx)
	out := make([]reflect.Value, len(l))
	for i, j := range idx {
		out[i] = l[j]
	}
	return out
}
