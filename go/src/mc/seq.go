package main

import (
	"fmt"
	"strings"
	"sync/atomic"
)

// opSeqs enumerates every sequence of exactly depth operations over an
// alphabet (every shorter sequence is a prefix of one of them, and run checks
// after every operation).
func opSeqs(c *Ctx, section string, names []string, depth int, run func(t *T, seq []int)) {
	k := len(names)
	pre := 2
	if depth < pre {
		pre = depth
	}
	n := 1
	for i := 0; i < pre; i++ {
		n *= k
	}
	str := func(seq []int) string {
		var b []string
		for _, s := range seq {
			b = append(b, names[s])
		}
		return strings.Join(b, ",")
	}
	var total int64
	c.Par(section, n, func(i int) string {
		p := make([]int, pre)
		for j := range p {
			p[j] = i % k
			i /= k
		}
		return str(p)
	}, func(t *T, i int) {
		seq := make([]int, depth)
		for j := 0; j < pre; j++ {
			seq[j] = i % k
			i /= k
		}
		bad := 0
		one := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					bad++
					t.sub = str(seq)
					t.guard(func() { panic(r) })
					t.sub = ""
				}
			}()
			run(t, seq)
			return true
		}
		cnt := int64(0)
		for {
			one()
			cnt++
			if bad > 20 {
				break
			}
			if cnt&1023 == 0 && c.Expired() {
				break
			}
			j := depth - 1
			for j >= pre && seq[j] == k-1 {
				seq[j] = 0
				j--
			}
			if j < pre {
				break
			}
			seq[j]++
		}
		t.Ops(int(cnt) * depth)
		atomic.AddInt64(&total, cnt)
		atomic.AddInt64(&c.traces, cnt)
	})
	c.AddExtra("operation_sequences", total)
}

func hInts(v ...int) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range v {
		h ^= uint64(x) + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		h *= 1099511628211
	}
	h ^= h >> 31
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func mustTrue(ok bool, key, format string, a ...interface{}) {
	if !ok {
		panic(failure{key, fmt.Sprintf(format, a...)})
	}
}
