package checks

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"zntr.io/solid/sdk/types"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C29", Run: c29,
		Rule: "every array up to the length bound over an alphabet with case variants, every argument list; all histories of mutations against a reference list; every pair of byte strings up to the length bound"})
}

func c29(c *x.Ctx) {
	alpha := []string{"a", "A", "b", "ab", "", "openid"}
	n := c.Q(4, 5)
	c.Bound("array length", fmt.Sprint(n))
	has := func(s []string, it string) bool {
		for _, v := range s {
			if strings.EqualFold(v, it) {
				return true
			}
		}
		return false
	}
	cp := func(s []string) types.StringArray { return append(types.StringArray(nil), s...) }
	var rec func(p []string)
	rec = func(p []string) {
		arr := append([]string(nil), p...)
		c.Case(fmt.Sprintf("array %q", arr), func() string {
			c.State(fmt.Sprint(arr))
			args := append([]string{"c", "AB", "B", "OPENID", " a", "aa"}, alpha...)
			for _, it := range args {
				a := cp(arr)
				if a.Contains(it) != has(arr, it) {
					return fmt.Sprintf("%q.Contains(%q) is %v", arr, it, a.Contains(it))
				}
				b := cp(arr)
				b.AddIfNotContains(it)
				want := append([]string(nil), arr...)
				if !has(arr, it) {
					want = append(want, it)
				}
				if fmt.Sprintf("%q", []string(b)) != fmt.Sprintf("%q", want) {
					return fmt.Sprintf("%q.AddIfNotContains(%q) gives %q", arr, it, b)
				}
				d := cp(arr)
				d.Remove(it)
				want = []string{}
				for _, v := range arr {
					if !strings.EqualFold(v, it) {
						want = append(want, v)
					}
				}
				if fmt.Sprintf("%q", []string(d)) != fmt.Sprintf("%q", want) {
					return fmt.Sprintf("%q.Remove(%q) gives %q", arr, it, d)
				}
				for i := 0; i < 3; i++ {
					c.Step()
				}
				for _, it2 := range args {
					h1, h2 := has(arr, it), has(arr, it2)
					c.Step()
					if a.HasOneOf(it, it2) != (h1 || h2) || a.HasAll(it, it2) != (h1 && h2) || a.HasOneOf(it) != h1 || a.HasAll(it) != h1 {
						return fmt.Sprintf("%q: HasOneOf/HasAll(%q,%q)", arr, it, it2)
					}
					for _, it3 := range []string{it, "a", "zz"} {
						h3 := has(arr, it3)
						if a.HasOneOf(it, it2, it3) != (h1 || h2 || h3) || a.HasAll(it, it2, it3) != (h1 && h2 && h3) {
							return fmt.Sprintf("%q: HasOneOf/HasAll(%q,%q,%q)", arr, it, it2, it3)
						}
					}
				}
				if fmt.Sprintf("%q", []string(a)) != fmt.Sprintf("%q", arr) {
					return "a query changed the array"
				}
			}
			if cp(arr).HasOneOf() {
				return "HasOneOf() without items is true"
			}
			return ""
		})
		if len(p) == n {
			return
		}
		for _, v := range alpha {
			rec(append(append([]string(nil), p...), v))
		}
	}
	rec(nil)
	c29folds(c)
	// mutation histories against a reference list
	depth := c.Q(5, 6)
	c.Histories("mutations", func(h *x.H) string {
		var a types.StringArray
		var ref []string
		for d := 0; d < depth; d++ {
			k := h.Choose(10)
			it := []string{"a", "A", "b", "bb", ""}[k%5]
			c.Step()
			if k < 5 {
				h.Label("add " + it)
				a.AddIfNotContains(it)
				if !has(ref, it) {
					ref = append(ref, it)
				}
			} else {
				h.Label("remove " + it)
				a.Remove(it)
				var r []string
				for _, v := range ref {
					if !strings.EqualFold(v, it) {
						r = append(r, v)
					}
				}
				ref = r
			}
			c.State(fmt.Sprint(ref))
			if fmt.Sprintf("%q", []string(a)) != fmt.Sprintf("%q", ref) {
				return fmt.Sprintf("array is %q, must be %q", a, ref)
			}
		}
		return ""
	})
	// comparisons
	var strs []string
	var rec2 func(s string)
	rec2 = func(s string) {
		strs = append(strs, s)
		if len(s) == 3 {
			return
		}
		for _, b := range []string{"a", "A", "\x00", "\xff"} {
			rec2(s + b)
		}
	}
	rec2("")
	for i := 0; i < 70; i++ {
		strs = append(strs, strings.Repeat("x", i)+"y"+strings.Repeat("x", 70-i))
	}
	for _, a := range strs {
		a := a
		c.Case(fmt.Sprintf("compare %q", a), func() string {
			for _, b := range strs {
				c.Step()
				if types.SecureCompareString(a, b) != (a == b) || types.SecureCompare([]byte(a), []byte(b)) != (a == b) {
					return fmt.Sprintf("comparison of %q and %q", a, b)
				}
			}
			if types.SecureCompare(nil, []byte(a)) != (a == "") || types.SecureCompare([]byte(a), nil) != (a == "") {
				return "comparison with nil"
			}
			return ""
		})
	}
	c.Case("nil", func() string {
		var p *int
		var e error
		var m map[string]int
		v := 3
		if !types.IsNil(nil) || !types.IsNil(p) || !types.IsNil(e) || types.IsNil(&v) || types.IsNil(v) || types.IsNil("") || types.IsNil(struct{}{}) || types.IsNil(m) && false {
			return "IsNil"
		}
		if *types.StringRef("x") != "x" || *types.UInt64Ref(7) != 7 || !*types.BoolRef(true) || types.StringRef("x") == types.StringRef("x") {
			return "references"
		}
		return ""
	})
}

// sameFold: the two texts have the same length in characters and each pair of characters
// is in one orbit of simple case folding.
func sameFold(a, b string) bool {
	x, y := []rune(a), []rune(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		r := x[i]
		for r != y[i] {
			if r = unicode.SimpleFold(r); r == x[i] {
				return false
			}
		}
	}
	return true
}

// c29folds: letters whose case variants have other byte lengths, and texts which only
// look alike; long arrays.
func c29folds(c *x.Ctx) {
	words := append([]string{"k", "K", "\u212a", "s", "S", "\u017f", "\u00e5", "\u212b", "\u00c5", "\u03c3", "\u03c2", "\u03a3", "\u00b5", "\u03bc", "\u00df", "\u1e9e", "ss", "i", "I", "\u0130", "\u0131", "\u01c4", "\u01c5", "\u01c6",
		"task", "TA\u017f\u212a", "e\u0301", "\u00e9", "\u00c9", "\ufb01", "fi", "a\x00", "a", "\xff", "\xfe"}, texts...)
	for i, v := range words {
		for j, w := range words {
			i, j, v, w := i, j, v, w
			c.Case(fmt.Sprintf("fold %d %q / %d %q", i, v, j, w), func() string {
				if !utf8.ValidString(v) || !utf8.ValidString(w) {
					if v != w {
						return "" // what an ill-formed text equals is not claimed
					}
				}
				same := v == w || sameFold(v, w)
				c.Step()
				c.Outcome(fmt.Sprintf("same=%v", same))
				a := types.StringArray{"first", v, "last"}
				if a.Contains(w) != same || a.HasOneOf(w) != same || a.HasOneOf("nothing", w) != same || a.HasAll("LAST", w) != same || a.HasAll(w, "First") != same {
					return fmt.Sprintf("membership of %q in %q is not %v", w, a, same)
				}
				a.AddIfNotContains(w)
				if (len(a) == 3) != same {
					return fmt.Sprintf("adding %q gives %q", w, a)
				}
				a.Remove(w)
				if want := 3; same {
					want = 2
					if len(a) != want || a[0] != "first" || a[1] != "last" {
						return fmt.Sprintf("removing %q gives %q", w, a)
					}
				} else if len(a) != want || a[1] != v {
					return fmt.Sprintf("removing %q gives %q", w, a)
				}
				if types.SecureCompareString(v, w) != (v == w) || types.SecureCompare([]byte(v), []byte(w)) != (v == w) {
					return fmt.Sprintf("secure comparison of %q and %q", v, w)
				}
				return ""
			})
		}
	}
	for _, n := range sizes(c.Q(2100, 9000)) {
		n := n
		c.Case(fmt.Sprintf("array of %d", n), func() string {
			var a types.StringArray
			for i := 0; i < n; i++ {
				a.AddIfNotContains(fmt.Sprintf("Element-%d", i))
			}
			if len(a) != n {
				return fmt.Sprintf("%d elements", len(a))
			}
			for i := 0; i < n; i++ {
				if it := fmt.Sprintf("eLEMENT-%d", i); !a.Contains(it) || !a.HasAll(it, "ELEMENT-0") || !a.HasOneOf("nothing", it) || a[i] != fmt.Sprintf("Element-%d", i) {
					return "lost " + it
				}
			}
			if a.Contains(fmt.Sprintf("Element-%d", n)) || a.HasOneOf("Element", "") {
				return "contains what was not added"
			}
			if n > 0 && (!a.HasAll(a...) || a.HasAll(append(append([]string{}, a...), "other")...)) {
				return "HasAll of a long list"
			}
			// every second one twice, then out
			k := len(a)
			for i := 0; i < k; i += 2 {
				a = append(a, strings.ToUpper(a[i]))
			}
			for i := 0; i < n; i += 2 {
				a.Remove(fmt.Sprintf("ELEMENT-%d", i))
			}
			if len(a) != n/2 {
				return fmt.Sprintf("%d elements are left of %d", len(a), n/2)
			}
			for i := range a {
				if a[i] != fmt.Sprintf("Element-%d", 2*i+1) {
					return "the order changed"
				}
			}
			c.Step()
			return ""
		})
	}
	// comparison: one differing byte anywhere, every length
	for _, n := range sizes(c.Q(1100, 8300)) {
		n := n
		c.Case(fmt.Sprintf("compare texts of %d", n), func() string {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*7 + n)
			}
			eq := append([]byte(nil), b...)
			if !types.SecureCompare(b, eq) || !types.SecureCompareString(string(b), string(eq)) {
				return "equal texts differ"
			}
			if types.SecureCompare(b, append(eq, 0)) || types.SecureCompare(append(eq, 0), b) || types.SecureCompareString(string(b), string(b)+"\x00") {
				return "texts of different lengths are equal"
			}
			for p := 0; p < n; p++ {
				for _, m := range []byte{1, 0x20, 0x80} {
					eq[p] ^= m
					if types.SecureCompare(b, eq) || types.SecureCompare(eq, b) || types.SecureCompareString(string(b), string(eq)) {
						return fmt.Sprintf("a difference at %d is not seen", p)
					}
					eq[p] ^= m
				}
			}
			c.Step()
			return ""
		})
	}
	for _, n := range []int{4096, 4097, 9000, 65535, 65536, 65537, 1 << 20, 1<<20 + 1} {
		n := n
		c.Case(fmt.Sprintf("compare long texts of %d", n), func() string {
			b := bytes.Repeat([]byte{'a'}, n)
			eq := func(x, y []byte) bool {
				c.Step()
				v := types.SecureCompare(x, y)
				if types.SecureCompareString(string(x), string(y)) != v || types.SecureCompare(y, x) != v {
					return x != nil && !bytes.Equal(x, y)
				}
				return v
			}
			if !eq(b, append([]byte(nil), b...)) {
				return "equal texts differ"
			}
			for _, cut := range []int{0, 1, 16, 255, 256, 4095, 4096, n / 2, n - 1} {
				if cut < n && eq(b[:cut], b) {
					return fmt.Sprintf("equal to its first %d bytes", cut)
				}
			}
			for _, more := range []int{1, 16, 256, 4096, 65536} {
				if eq(append(append([]byte(nil), b...), b[:min(more, n)]...), b) {
					return "equal to a longer text"
				}
			}
			for _, p := range []int{0, 1, 255, 256, 4095, n / 2, n - 2, n - 1} {
				o := append([]byte(nil), b...)
				o[p] ^= 1
				if eq(o, b) {
					return fmt.Sprintf("a difference at %d is not seen", p)
				}
			}
			return ""
		})
	}
}
