package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

// Attribute maps against a list of (key, value) pairs (A01).

func omapCases(r *Run) {
	pool := []string{"a", "b", "c", "A", "", "é", "_FillValue", "_NCProperties", "a b"}
	for i := 0; i < r.n(40000, 1500000) && !r.expired(); i++ {
		var trace []string
		note := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
		msg := ""
		err := protect(func() error {
			nk := r.rng.Intn(6)
			perm := r.rng.Perm(len(pool))
			var keys []string
			vals := map[string]any{}
			for _, p := range perm[:nk] {
				keys = append(keys, pool[p])
				vals[pool[p]] = r.rng.Intn(1000)
			}
			// some lists don't match
			match := true
			switch r.rng.Intn(6) {
			case 0:
				if nk > 1 {
					keys[r.rng.Intn(nk-1)] = keys[nk-1] // a key twice, another missing
					match = false
				}
			case 1:
				keys = append(keys, pool[perm[nk]])
				match = false
			case 2:
				if nk > 0 {
					keys[r.rng.Intn(nk)] = pool[perm[nk]]
					match = false
				}
			case 3:
				if nk > 0 {
					keys = append(keys, keys[r.rng.Intn(nk)])
					match = false
				}
			}
			note("NewOrderedMap(%q, %v)", keys, vals)
			if nk == 0 && match && r.rng.Intn(2) == 0 {
				keys, vals = nil, nil
			}
			given := slices.Clone(keys)
			m, err := util.NewOrderedMap(keys, vals)
			if !match {
				if err == nil {
					msg = "a key list which doesn't match the values isn't refused"
				}
				return nil
			}
			if err != nil {
				msg = "refused: " + err.Error()
				return nil
			}
			// the model
			mk := slices.Clone(given)
			mv := map[string]any{}
			for k, v := range vals {
				mv[k] = v
			}
			hidden := map[string]bool{}
			if r.rng.Intn(2) == 0 {
				// the arguments belong to the caller
				for j := range keys {
					keys[j] = "changed"
				}
				for k := range vals {
					vals[k] = -1
				}
				if vals != nil {
					vals["more"] = 1
				}
			}
			for step := r.rng.Intn(12); step >= 0; step-- {
				k := pool[r.rng.Intn(len(pool))]
				switch r.rng.Intn(5) {
				case 0, 1:
					v := r.rng.Intn(1000)
					note("Add(%q,%d)", k, v)
					m.Add(k, v)
					if _, has := mv[k]; !has {
						mk = append(mk, k)
					}
					mv[k] = v
				case 2:
					note("Hide(%q)", k)
					m.Hide(k)
					hidden[k] = true
				case 3:
					l := m.Keys()
					for j := range l {
						l[j] = "changed"
					}
				}
				var want []string
				for _, k := range mk {
					if !hidden[k] {
						want = append(want, k)
					}
				}
				note("check")
				if got := m.Keys(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					msg = fmt.Sprintf("Keys() %q, want %q", got, want)
					return nil
				}
				for _, k := range pool {
					v, has := m.Get(k)
					w, whas := mv[k]
					if has != whas || v != w {
						msg = fmt.Sprintf("Get(%q) %v %v, want %v %v", k, v, has, w, whas)
						return nil
					}
					if _, has := m.GetType(k); has != whas {
						msg = fmt.Sprintf("GetType(%q) %v, want %v", k, has, whas)
						return nil
					}
					if _, has := m.GetGoType(k); has != whas {
						msg = fmt.Sprintf("GetGoType(%q) %v, want %v", k, has, whas)
						return nil
					}
				}
			}
			return nil
		})
		r.Case("maps", strings.Join(trace, "; "))
		if err != nil {
			msg = err.Error()
		}
		if msg != "" {
			r.Fail("map", msg+" after "+strings.Join(trace, "; "), nil)
		}
	}
}

func init() { register("A01", omapCases) }
