package x

import (
	"fmt"
	"hash/fnv"
	"strings"

	"verif.local/mc/rt"
)

// H is one execution of a history harness: every nondeterministic decision is taken with
// Choose, so that the explorer can enumerate all of them.
type H struct {
	prefix []int32
	ch     []int32
	n      []int32
	labels []string
	Full   bool // replaying a known choice vector
	cut    func(h *H) bool
}

type cutExec struct{}

// Choose returns a number in [0,n), enumerated exhaustively by the explorer.
func (h *H) Choose(n int) int {
	if n <= 0 {
		panic("Choose(0)")
	}
	v := int32(0)
	if len(h.ch) < len(h.prefix) {
		v = h.prefix[len(h.ch)]
	}
	h.ch = append(h.ch, v)
	h.n = append(h.n, int32(n))
	if h.cut != nil && h.cut(h) {
		panic(cutExec{})
	}
	return int(v)
}

// Label names the operation just chosen (part of the identification of a violation).
func (h *H) Label(s string) { h.labels = append(h.labels, s) }

const shardDepth = 2

// Histories runs body for every choice vector (stateless depth-first enumeration of all
// operation sequences). body returns "" when the property held along the history.
func (c *Ctx) Histories(name string, body func(h *H) string) {
	if c.order != nil {
		return
	}
	if c.Replaying && !strings.HasPrefix(c.OnlyKey, name+": ") {
		return
	}
	run := func(h *H) (res string, cut bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(cutExec); ok {
					cut = true
					return
				}
				res = fmt.Sprintf("panic: %v", r)
			}
		}()
		rt.ResetClock()
		return body(h), false
	}
	if c.Replaying {
		h := &H{prefix: c.OnlySched}
		res, _ := run(h)
		fmt.Printf("replay %s: %s => %q\n", name, strings.Join(h.labels, "; "), res)
		if res != "" {
			c.Fail(Violation{Key: name + ": " + strings.Join(h.labels, "; "), What: res, Sched: h.ch})
		}
		return
	}
	cut := func(h *H) bool {
		if len(h.ch) != shardDepth || c.Shards == 1 {
			return false
		}
		f := fnv.New32a()
		for _, v := range h.ch {
			f.Write([]byte{byte(v), byte(v >> 8)})
		}
		x := f.Sum32()
		x ^= x >> 15
		x *= 0x2c1b3c6d
		x ^= x >> 12
		return int(x%uint32(c.Shards)) != c.Shard
	}
	var prefix []int32
	fails := 0
	for {
		if c.Expired() {
			return
		}
		h := &H{prefix: prefix, cut: cut}
		steps := c.R.Transitions
		res, wasCut := run(h)
		mine := !wasCut && (len(h.ch) >= shardDepth || c.Shard == 0)
		if !mine {
			c.R.Transitions = steps
		} else {
			c.R.Evaluations++
			key := name + ": " + strings.Join(h.labels, "; ")
			c.Sample(key)
			if res != "" {
				ok := true
				keep := c.R.Transitions
				for i := 0; i < 5; i++ {
					if r2, _ := run(&H{prefix: h.ch}); r2 == "" {
						ok = false
						break
					}
				}
				c.R.Transitions = keep
				if ok {
					c.Fail(Violation{Key: key, What: res, Sched: h.ch})
					fails++
					if fails >= 20 {
						c.Note(name + ": stopped after 20 failing histories")
						return
					}
				} else {
					c.R.Unconfirmed++
					c.Note("a failure did not reproduce: " + key + ": " + res)
				}
			}
		}
		// next choice vector
		i := len(h.ch) - 1
		for i >= 0 && h.ch[i]+1 >= h.n[i] {
			i--
		}
		if i < 0 {
			return
		}
		prefix = append(append([]int32(nil), h.ch[:i]...), h.ch[i]+1)
	}
}
