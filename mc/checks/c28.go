package checks

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"zntr.io/solid/sdk/randomness"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C28", Race: true, Run: c28,
		Rule: "every sequence of generator operations to the depth against a reference generator of the same seed; every schedule of every pair (triple) of concurrent operations within the preemption bound, with the race detector, results compared with the sequential orders; every panicking call followed by every operation"})
}

// rng is what both the implementation and the reference offer.
type rng interface {
	Seed(int64)
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Int63n(int64) int64
	Int31n(int32) int32
	Intn(int) int
	Float64() float64
	Float32() float32
	Perm(int) []int
	NormFloat64() float64
	ExpFloat64() float64
	Shuffle(int, func(i, j int))
	Read([]byte) (int, error)
}

type rngOp struct {
	name string
	f    func(r rng) string
}

func c28ops() []rngOp {
	shuffle := func(r rng, n int) string {
		l := make([]int, n)
		for i := range l {
			l[i] = i
		}
		r.Shuffle(n, func(i, j int) { l[i], l[j] = l[j], l[i] })
		s := append([]int{}, l...)
		sort.Ints(s)
		for i := range s {
			if s[i] != i {
				return "lost elements"
			}
		}
		return fmt.Sprint(l)
	}
	read := func(r rng, n int) string {
		b := make([]byte, n)
		k, err := r.Read(b)
		if k != n || err != nil {
			return fmt.Sprintf("read %d of %d: %v", k, n, err)
		}
		return fmt.Sprintf("%x", b)
	}
	inr := func(v, n int64) string {
		if v < 0 || v >= n {
			return fmt.Sprintf("%d is not in [0,%d)", v, n)
		}
		return fmt.Sprint(v)
	}
	return []rngOp{
		{"Int63", func(r rng) string { return inr(r.Int63(), math.MaxInt64) }},
		{"Uint32", func(r rng) string { return fmt.Sprint(r.Uint32()) }},
		{"Uint64", func(r rng) string { return fmt.Sprint(r.Uint64()) }},
		{"Int31", func(r rng) string { return inr(int64(r.Int31()), math.MaxInt32+1) }},
		{"Int", func(r rng) string { return inr(int64(r.Int()), math.MaxInt64) }},
		{"Int63n", func(r rng) string { return inr(r.Int63n(1e15), 1e15) }},
		{"Int31n", func(r rng) string { return inr(int64(r.Int31n(1e6)), 1e6) }},
		{"Intn", func(r rng) string { return inr(int64(r.Intn(1e6)), 1e6) }},
		{"Float64", func(r rng) string { return fmt.Sprint(r.Float64()) }},
		{"Float32", func(r rng) string { return fmt.Sprint(r.Float32()) }},
		{"Perm", func(r rng) string { return fmt.Sprint(r.Perm(5)) }},
		{"NormFloat64", func(r rng) string { return fmt.Sprint(r.NormFloat64()) }},
		{"ExpFloat64", func(r rng) string { return fmt.Sprint(r.ExpFloat64()) }},
		{"Shuffle", func(r rng) string { return shuffle(r, 5) }},
		{"Read3", func(r rng) string { return read(r, 3) }},
		{"Read8", func(r rng) string { return read(r, 8) }},
		{"Read0", func(r rng) string { return read(r, 0) }},
		{"Seed", func(r rng) string { r.Seed(9); return "seeded" }},
	}
}

// panicking calls: each must panic and leave the generator usable
func c28panics() []rngOp {
	return []rngOp{
		{"Int63n(0)", func(r rng) string { r.Int63n(0); return "" }},
		{"Int63n(-1)", func(r rng) string { r.Int63n(-1); return "" }},
		{"Int31n(0)", func(r rng) string { r.Int31n(0); return "" }},
		{"Intn(0)", func(r rng) string { r.Intn(0); return "" }},
		{"Intn(-5)", func(r rng) string { r.Intn(-5); return "" }},
		{"Perm(-1)", func(r rng) string { r.Perm(-1); return "" }},
		{"Shuffle(-1)", func(r rng) string { r.Shuffle(-1, func(int, int) {}); return "" }},
		{"Shuffle, swap panics", func(r rng) string { r.Shuffle(3, func(int, int) { panic("mine") }); return "" }},
	}
}

// globalRng is the package level generator.
type globalRng struct{}

func (globalRng) Seed(int64)                      {}
func (globalRng) Int63() int64                    { return randomness.Int63() }
func (globalRng) Uint32() uint32                  { return randomness.Uint32() }
func (globalRng) Uint64() uint64                  { return randomness.Uint64() }
func (globalRng) Int31() int32                    { return randomness.Int31() }
func (globalRng) Int() int                        { return randomness.Int() }
func (globalRng) Int63n(n int64) int64            { return randomness.Int63n(n) }
func (globalRng) Int31n(n int32) int32            { return randomness.Int31n(n) }
func (globalRng) Intn(n int) int                  { return randomness.Intn(n) }
func (globalRng) Float64() float64                { return randomness.Float64() }
func (globalRng) Float32() float32                { return randomness.Float32() }
func (globalRng) Perm(n int) []int                { return randomness.Perm(n) }
func (globalRng) NormFloat64() float64            { return randomness.NormFloat64() }
func (globalRng) ExpFloat64() float64             { return randomness.ExpFloat64() }
func (globalRng) Shuffle(n int, f func(i, j int)) { randomness.Shuffle(n, f) }
func (globalRng) Read(p []byte) (int, error)      { return randomness.Reader.Read(p) }

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// orders lists every interleaving of the operations of the threads (one list per thread).
func orders(left []int) [][]int {
	done := true
	var out [][]int
	for i := range left {
		if left[i] > 0 {
			done = false
			l := append([]int{}, left...)
			l[i]--
			for _, o := range orders(l) {
				out = append(out, append([]int{i}, o...))
			}
		}
	}
	if done {
		return [][]int{{}}
	}
	return out
}

func c28(c *x.Ctx) {
	ops := c28ops()
	seeds := []int64{1, 0, -1, 42, math.MaxInt64, math.MinInt64}
	depth := c.Q(3, 4)
	c.Bound("sequence depth", fmt.Sprint(depth))
	// one generator, every sequence
	for si, seed := range seeds {
		seed := seed
		d := depth
		if si > 0 {
			d = 2
		}
		c.Histories(fmt.Sprintf("sequences, seed %d", seed), func(h *x.H) string {
			r, ref := randomness.NewLockedRand(seed), rand.New(rand.NewSource(seed))
			for i := 0; i < d; i++ {
				o := ops[h.Choose(len(ops))]
				h.Label(o.name)
				c.Step()
				g, w := o.f(r), o.f(ref)
				c.Outcome(o.name)
				if g != w {
					return fmt.Sprintf("%s gives %s, the same seed gives %s", o.name, g, w)
				}
			}
			return ""
		})
		c.Case(fmt.Sprintf("readers, seed %d", seed), func() string {
			a, b, ref := randomness.NewReader(seed), randomness.NewReader(seed), rand.New(rand.NewSource(seed))
			for n := 0; n < 300; n++ {
				x, y, z := make([]byte, n%17), make([]byte, n%17), make([]byte, n%17)
				i, e1 := a.Read(x)
				j, e2 := b.Read(y)
				ref.Read(z)
				c.Step()
				if i != len(x) || j != len(y) || e1 != nil || e2 != nil || string(x) != string(y) || string(x) != string(z) {
					return "two readers of one seed differ"
				}
			}
			return ""
		})
	}
	// the half-open interval: the draws at which the rounding of a narrower type reaches one
	for _, seed := range []int64{51, 299, 247} {
		seed := seed
		c.Case(fmt.Sprintf("rounding, seed %d", seed), func() string {
			at, probe := 0, rand.New(rand.NewSource(seed))
			for float32(float64(probe.Int63())/(1<<63)) != 1 {
				at++
			}
			c.Step()
			for _, o := range []rngOp{ops[9], ops[8]} {
				r, ref := randomness.NewLockedRand(seed), rand.New(rand.NewSource(seed))
				buf := make([]byte, 7*at)
				r.Read(buf)
				ref.Read(buf)
				for i := 0; i < 3; i++ {
					if g, w := o.f(r), o.f(ref); g != w {
						return fmt.Sprintf("%s gives %s at draw %d, the same seed gives %s", o.name, g, at+i, w)
					}
				}
			}
			return ""
		})
	}
	// a panic never keeps the lock
	for _, target := range []string{"locked", "global"} {
		for _, p := range c28panics() {
			for _, o := range ops {
				target, p, o := target, p, o
				if target == "global" && o.name == "Seed" {
					continue
				}
				c.Whole("after a panic", fmt.Sprintf("%s after %s (%s)", o.name, p.name, target), 1, func() *x.World {
					var r rng = randomness.NewLockedRand(7)
					if target == "global" {
						r = globalRng{}
					}
					bad := ""
					return &x.World{Threads: []func(){func() {
						if !panics(func() { p.f(r) }) {
							bad = p.name + " does not panic"
						}
						if o.name != "Perm" && o.name != "Shuffle" { // keep the run short
							o.f(r)
						}
						o.f(r)
					}}, Check: func() string { return bad }, Outcome: func() string { return p.name }}
				})
			}
		}
	}
	// concurrent operations
	b := c.Q(2, 3)
	world := func(kind, key string, lists [][]rngOp, bound int) {
		c.Whole(kind, key, bound, func() *x.World {
			r := randomness.NewLockedRand(5)
			got := make([][]string, len(lists))
			var th []func()
			n := make([]int, len(lists))
			for i, l := range lists {
				i, l := i, l
				n[i] = len(l)
				got[i] = make([]string, len(l))
				th = append(th, func() {
					for k, o := range l {
						got[i][k] = o.f(r)
					}
				})
			}
			return &x.World{Threads: th, Check: func() string {
				g := fmt.Sprint(got)
				for _, ord := range orders(n) {
					ref := rand.New(rand.NewSource(5))
					w := make([][]string, len(lists))
					for _, t := range ord {
						w[t] = append(w[t], lists[t][len(w[t])].f(ref))
					}
					if fmt.Sprint(w) == g {
						return ""
					}
				}
				return "the concurrent draws are those of no sequential order"
			}, Outcome: func() string { return "ordered" }}
		})
	}
	for i := range ops {
		for j := range ops {
			world("two operations", ops[i].name+" || "+ops[j].name, [][]rngOp{{ops[i]}, {ops[j]}}, b)
			world("two threads of two", ops[i].name+","+ops[j].name+" || "+ops[j].name+","+ops[i].name, [][]rngOp{{ops[i], ops[j]}, {ops[j], ops[i]}}, c.Q(1, 2))
		}
		world("three operations", "three "+ops[i].name, [][]rngOp{{ops[i]}, {ops[i]}, {ops[i]}}, c.Q(1, 2))
	}
	// large operations are one step too
	big := []rngOp{}
	for _, n := range []int{9, 64, 65, 100, 257, 1025, 5000} {
		n := n
		big = append(big, rngOp{fmt.Sprintf("Read%d", n), func(r rng) string {
			b := make([]byte, n)
			k, err := r.Read(b)
			return fmt.Sprintf("%d %v %x", k, err, b)
		}})
	}
	for _, n := range []int{0, 1, 2, 17, 65, 300, 2000} {
		n := n
		big = append(big, rngOp{fmt.Sprintf("Perm%d", n), func(r rng) string { return fmt.Sprint(r.Perm(n)) }},
			rngOp{fmt.Sprintf("Shuffle%d", n), func(r rng) string {
				l := make([]int, n)
				for i := range l {
					l[i] = i
				}
				r.Shuffle(n, func(i, j int) { l[i], l[j] = l[j], l[i] })
				return fmt.Sprint(l)
			}})
	}
	for i, o := range big {
		o := o
		c.Case("large "+o.name, func() string {
			r, ref := randomness.NewLockedRand(5), rand.New(rand.NewSource(5))
			for k := 0; k < 3; k++ {
				if o.f(r) != o.f(ref) || r.Int63() != ref.Int63() {
					return o.name + " differs from the same seed"
				}
			}
			c.Step()
			return ""
		})
		world("large operations", o.name+" || Uint64", [][]rngOp{{o}, {ops[2]}}, 1)
		world("large operations", o.name+" || "+big[(i*5)%len(big)].name, [][]rngOp{{o}, {big[(i*5)%len(big)]}}, 1)
		world("large operations", o.name+" || Seed,Read3", [][]rngOp{{o}, {ops[17], ops[14]}}, 1)
	}
	for i := range ops[:17] {
		for j := range ops[:17] {
			i, j := i, j
			c.Whole("global", "global "+ops[i].name+" || "+ops[j].name, c.Q(1, 2), func() *x.World {
				got := make([]string, 2)
				return &x.World{Threads: []func(){func() { got[0] = ops[i].f(globalRng{}) }, func() { got[1] = ops[j].f(globalRng{}) }},
					Check: func() string {
						for _, g := range got {
							if strings.Contains(g, "not in") || strings.Contains(g, "lost") || strings.Contains(g, "read ") {
								return g
							}
						}
						if i == j && strings.HasPrefix(ops[i].name, "Uint64") && got[0] == got[1] {
							return "two draws are the same"
						}
						return ""
					}, Outcome: func() string { return "in range" }}
			})
		}
	}
	// ranges, over every small bound
	draws := c.Q(40, 400)
	for n := 1; n <= 64; n++ {
		n := n
		c.Case(fmt.Sprintf("range %d", n), func() string {
			for _, r := range []rng{globalRng{}, randomness.NewLockedRand(int64(n))} {
				for i := 0; i < draws; i++ {
					c.R.Transitions++
					if v := r.Intn(n); v < 0 || v >= n {
						return fmt.Sprintf("Intn(%d)=%d", n, v)
					}
					if v := r.Int31n(int32(n)); v < 0 || v >= int32(n) {
						return fmt.Sprintf("Int31n(%d)=%d", n, v)
					}
					if v := r.Int63n(int64(n)); v < 0 || v >= int64(n) {
						return fmt.Sprintf("Int63n(%d)=%d", n, v)
					}
					p := r.Perm(n)
					sort.Ints(p)
					for k := range p {
						if p[k] != k || len(p) != n {
							return fmt.Sprintf("Perm(%d) is not a permutation", n)
						}
					}
					if f := r.Float64(); f < 0 || f >= 1 {
						return fmt.Sprint("Float64=", f)
					}
					if f := r.Float32(); f < 0 || f >= 1 {
						return fmt.Sprint("Float32=", f)
					}
				}
			}
			return ""
		})
	}
	// seeds
	c.Case("crypto seeds", func() string {
		seen := map[int64]bool{}
		var or, and uint64 = 0, math.MaxUint64
		for i := 0; i < 3000; i++ {
			s := randomness.CryptoSeed()
			if seen[s] {
				return "a seed repeats"
			}
			seen[s] = true
			or |= uint64(s)
			and &= uint64(s)
			c.R.Transitions++
		}
		if or != math.MaxUint64 || and != 0 {
			return fmt.Sprintf("some bits of the seed never change: %x %x", or, and)
		}
		return ""
	})
	c.Case("the global generators are not seeded with a small number", func() string {
		g := map[uint64]bool{}
		for i := 0; i < 8; i++ {
			g[randomness.Uint64()] = true
		}
		rb := make([]byte, 8)
		randomness.Reader.Read(rb)
		if len(g) != 8 {
			return "global draws repeat"
		}
		// the global state depends on every draw so far: compare windows of small seeds
		for s := int64(-50); s <= int64(c.Q(300, 3000)); s++ {
			r := rand.New(rand.NewSource(s))
			c.R.Transitions++
			for k := 0; k < 4000; k++ {
				if g[r.Uint64()] {
					return fmt.Sprintf("the global generator draws the values of seed %d", s)
				}
			}
		}
		return ""
	})
	c.Case("the global generator and the reader are independent", func() string {
		g := map[string]bool{}
		for i := 0; i < 64; i++ {
			v := randomness.Uint64()
			var b [8]byte
			for k := range b {
				b[k] = byte(v >> (8 * k))
			}
			g[string(b[:])] = true
		}
		buf := make([]byte, 1<<16)
		randomness.Reader.Read(buf)
		for i := 0; i+8 <= len(buf); i++ {
			if g[string(buf[i:i+8])] {
				return "the stream repeats the draws"
			}
		}
		return ""
	})
}
