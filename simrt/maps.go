package simrt

import (
	"math"
	"reflect"
	"sort"
)

// MapKeys returns the keys of m in the order in which this run iterates it:
// canonical order when MapSeed is 0, else a seeded permutation of it.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	as := make([]any, len(ks))
	for i, k := range ks {
		as[i] = k
	}
	p := keyOrder(as)
	res := make([]K, len(ks))
	for i, j := range p {
		res[i] = ks[j]
	}
	return res
}

// KV returns zero values of a map's key and element types.
func KV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// The runtime's map functions tell the race detector about the key's memory
// even when called from here. These keep it on the coordinator's stack.

//go:noinline
func mapGet[V any](m map[any]V, k any) (v V, ok bool) { v, ok = m[k]; return }

//go:noinline
func mapSet[V any](m map[any]V, k any, v V) { m[k] = v }

//go:noinline
func mapDel[V any](m map[any]V, k any) { delete(m, k) }

// NoteKey gives a pointer used as map key its place in the canonical order.
func NoteKey[K comparable](k K) K {
	noteKey(k)
	return k
}

func noteKey(k any) {
	if !InSim() {
		return
	}
	f := func() {
		w := W
		if _, ok := mapGet(w.ptrIDs, k); !ok {
			mapSet(w.ptrIDs, k, len(w.ptrIDs)+1)
		}
	}
	if RaceEnabled {
		call(f) // the coordinator must own the table
	} else {
		f() // only one goroutine runs: safe without a switch
	}
}

func idOf(k any) (id int) {
	if !InSim() {
		return 0
	}
	f := func() { id, _ = mapGet(W.ptrIDs, k) }
	if RaceEnabled {
		call(f)
	} else {
		f()
	}
	return
}

func keyOrder(as []any) []int {
	w := W
	p := make([]int, len(as))
	for i := range p {
		p[i] = i
	}
	{
		fl := make([][]float64, len(as))
		st := make([][]string, len(as))
		for i, a := range as {
			flatten(reflect.ValueOf(a), &fl[i], &st[i], w)
		}
		sort.SliceStable(p, func(i, j int) bool {
			a, b := fl[p[i]], fl[p[j]]
			for x := 0; x < len(a) && x < len(b); x++ {
				if a[x] != b[x] {
					return a[x] < b[x]
				}
			}
			if len(a) != len(b) {
				return len(a) < len(b)
			}
			c, d := st[p[i]], st[p[j]]
			for x := 0; x < len(c) && x < len(d); x++ {
				if c[x] != d[x] {
					return c[x] < d[x]
				}
			}
			return len(c) < len(d)
		})
	}
	if InSim() && w.Cfg.MapSeed != 0 {
		w.mapShuffles++
		for i := len(p) - 1; i > 0; i-- {
			j := w.rMap.n(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

func flatten(v reflect.Value, fl *[]float64, st *[]string, w *World) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*fl = append(*fl, float64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		*fl = append(*fl, float64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if math.IsNaN(f) {
			f = math.Inf(-1)
		}
		s := 0.0
		if math.Signbit(f) {
			s = -1
		}
		*fl = append(*fl, f, s)
	case reflect.Bool:
		if v.Bool() {
			*fl = append(*fl, 1)
		} else {
			*fl = append(*fl, 0)
		}
	case reflect.String:
		*st = append(*st, v.String())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			flatten(v.Field(i), fl, st, w)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			flatten(v.Index(i), fl, st, w)
		}
	case reflect.Interface:
		if !v.IsNil() {
			*st = append(*st, v.Elem().Type().String())
			flatten(v.Elem(), fl, st, w)
		}
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		id := 0
		if v.CanInterface() {
			id = idOf(v.Interface())
		}
		if id == 0 && InSim() {
			w.out.Nondet = "iteration over a map with unregistered pointer keys"
		}
		*fl = append(*fl, float64(id))
	}
}

// MapIter iterates a map in the run's order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	v    V
}

func newIter[K comparable, V any](m map[K]V) *MapIter[K, V] {
	return &MapIter[K, V]{m: m, keys: MapKeys(m), i: -1}
}

// MapRange1, MapRange2 and MapRange3 start a range loop over m that assigns to
// existing variables, declares a key, or declares key and value.
func MapRange1[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] { return newIter(map[K]V(m)) }
func MapRange2[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K) {
	return newIter(map[K]V(m)), k
}
func MapRange3[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K, v V) {
	return newIter(map[K]V(m)), k, v
}

// Next moves to the next entry still in the map.
func (it *MapIter[K, V]) Next() bool {
	for it.i+1 < len(it.keys) {
		it.i++
		v, ok := it.m[it.keys[it.i]]
		if ok {
			it.v = v
			return true
		}
	}
	return false
}
func (it *MapIter[K, V]) K() K { return it.keys[it.i] }
func (it *MapIter[K, V]) V() V { return it.v }

// ChanVar starts a range loop over a channel.
func ChanVar[T any](c *Chan[T]) (d *Chan[T], v T) { return c, v }

// SetZero resets a package variable.
func SetZero[T any](p *T) {
	var z T
	*p = z
}
