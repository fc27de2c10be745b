package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M06: generated passwords

// line gives the settings after a line of the dialogue that doesn't end it, and
// whether a new password is generated.
func (s *pwSettings) line(l string) bool {
	f := strings.Fields(l)
	regen := len(f) == 0 || l != "?" && (f[0] != "c" || s.impossible())
	s.apply(l)
	return regen
}

type m06 struct {
	Lines []string
	End   string // y eof
}

func genPwLine(t *rapid.T) string {
	n := func(l string) string {
		return strconv.Itoa(rapid.OneOf(rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 4, 8, 32}), rapid.IntRange(0, 20), rapid.IntRange(0, 70),
			rapid.SampledFrom([]int{-2, -32, 33, 64, 100, 255, 256, 257, 300, 511, 1000, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt, math.MinInt, math.MaxInt/2 + 1, math.MaxInt - 31, -1 << 62})).Draw(t, l))
	}
	switch rapid.IntRange(0, 9).Draw(t, "line") {
	case 0, 1:
		return rapid.SampledFrom([]string{"u", "l", "n", "b", "e"}).Draw(t, "class")
	case 2, 3, 4, 5:
		return rapid.SampledFrom([]string{"u", "l", "n", "b", "e"}).Draw(t, "class") + " " + n("min")
	case 6, 7:
		if rapid.IntRange(0, 5).Draw(t, "long") == 3 {
			return strconv.Itoa(rapid.IntRange(1000, 40000).Draw(t, "len"))
		}
		if v := n("len"); len(v) < 6 {
			return v
		}
		return "40"
	case 8:
		return rapid.SampledFrom([]string{"", "", "?", "c", "c x"}).Draw(t, "other")
	}
	return rapid.SampledFrom([]string{"x", "uu", "3x", "u x", "y x", "yy", "M", "u  3", "u 3 4", "l 1 y", "0x10", "1e3", "-", "+5", "n -", "é", "  7", "Y", "99999999999999999999", "l 99999999999999999999", "-5", "0", "00016", "\xff"}).Draw(t, "odd")
}

func genM06(t *rapid.T) m06 {
	return m06{Lines: genSlice(t, "lines", 6, 40, rapid.Custom(genPwLine)), End: rapid.SampledFrom([]string{"y", "y", "y", "eof"}).Draw(t, "end")}
}

// pwOutput splits the output of the dialogue in what was said after each line.
func pwOutput(out string) []string {
	return strings.Split(out, "u/l/n/b/e/y/c/m/enter/?> ")
}

// pwSegs are the generated passwords of an output, in order; "" with ok=false is a refusal.
type pwSeen struct {
	pw      string
	refused bool
}

func pwLines(out string) []pwSeen {
	var seen []pwSeen
	for _, l := range strings.Split(out, "\n") {
		if p, ok := strings.CutPrefix(l, "password: "); ok {
			seen = append(seen, pwSeen{pw: p})
		} else if strings.Contains(l, "Could not generate password") {
			seen = append(seen, pwSeen{refused: true})
		}
	}
	return seen
}

func runM06(c m06, x *Ctx) error {
	h := newHome(x, "m06")
	defer h.done()
	h.fake(map[string]fakeCfg{"xclip": {}})
	s := pwSettings{Length: 32}
	var want []pwSettings // of every password shown, in order
	var reshown []bool
	want, reshown = append(want, s), append(reshown, false)
	in := ""
	var copies []int // index of the shown passwords that are copied
	for _, l := range c.Lines {
		// a length of this size may be refused
		if n, err := strconv.Atoi(l); err == nil && n > 65000 {
			l = "600"
		}
		in += l + "\n"
		if f := strings.Fields(l); len(f) > 0 && f[0] == "c" && !s.impossible() {
			copies = append(copies, len(want)-1)
		}
		regen := s.line(l)
		if !regen && s.impossible() {
			continue // says nothing
		}
		want, reshown = append(want, s), append(reshown, !regen)
	}
	if c.End == "y" {
		if s.impossible() {
			in += "y\n" // refused
			want, reshown = append(want, s), append(reshown, false)
			for _, l := range []string{"u 0", "l 0", "n 0", "b 0", "e 0", "12"} {
				in += l + "\n"
				s.line(l)
				want, reshown = append(want, s), append(reshown, false)
			}
		}
		in += "y\n"
	}
	r, err := h.run([]string{"--no-color", "gen"}, strings.NewReader(in))
	if err != nil {
		return err
	}
	if r.Hang || r.crashed() {
		return failf("gen with %q: %s", in, r.tail())
	}
	if (r.RC == 0) != (c.End == "y") {
		return failf("gen with %q: %s", in, r.tail())
	}
	seen := pwLines(r.Out)
	if len(seen) != len(want) {
		return failf("gen with %q: %d passwords or refusals are shown, want %d: %s", in, len(seen), len(want), r.tail())
	}
	all := map[string]bool{}
	n := 0
	for i, w := range want {
		switch {
		case w.impossible() != seen[i].refused:
			return failf("gen with %q: output %d is refused=%v for length %d with minima %v", in, i, seen[i].refused, w.Length, w.Min)
		case seen[i].refused:
			x.Label("refused")
			continue
		case reshown[i]:
			if seen[i] != seen[i-1] {
				return failf("gen with %q: a line without effect changed the password from %q to %q", in, seen[i-1].pw, seen[i].pw)
			}
			continue
		}
		if err := w.conforms(seen[i].pw); err != nil {
			return failf("gen with %q: password %d, %q, with minima %v %v", in, i, seen[i].pw, w.Min, err)
		}
		on := 0
		for k := range w.Min {
			if w.Min[k] >= 0 {
				on += len(pwClasses[k])
			}
		}
		if w.Length >= 20 && on >= 8 || w.Length >= 12 && on >= 26 {
			if all[seen[i].pw] {
				return failf("gen with %q: the password %q is repeated", in, seen[i].pw)
			}
			all[seen[i].pw] = true
		}
		n++
	}
	if c.End == "y" {
		ls := strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
		if last := ls[len(ls)-1]; last != seen[len(seen)-1].pw {
			return failf("gen with %q: accepted %q, but the result is %q", in, seen[len(seen)-1].pw, last)
		}
	}
	logs := h.fakeLogs()
	if len(logs) != len(copies) {
		return failf("gen with %q: %d things are copied, want %d", in, len(logs), len(copies))
	}
	for i, l := range logs {
		if string(l.In) != seen[copies[i]].pw {
			return failf("gen with %q: copied %q instead of %q", in, l.In, seen[copies[i]].pw)
		}
	}
	if n > 2 {
		x.NonTrivial()
	}
	x.LabelIf(len(copies) > 0, "copied")
	return nil
}

// m06spread looks at many passwords of the same settings.
type m06spread struct {
	Len  int
	Min  [5]int
	Runs int
}

func genM06spread(t *rapid.T) m06spread {
	c := m06spread{Runs: rapid.IntRange(1, 3).Draw(t, "runs")}
	sum := 0
	for i := range c.Min {
		c.Min[i] = rapid.SampledFrom([]int{-1, 0, 0, 1, 1, 2, 5}).Draw(t, "min")
		sum += max(0, c.Min[i])
	}
	c.Len = max(1, rapid.IntRange(sum, sum+rapid.SampledFrom([]int{0, 1, 8, 30}).Draw(t, "more")).Draw(t, "len"))
	if c.Min == [5]int{-1, -1, -1, -1, -1} {
		c.Min[rapid.IntRange(0, 4).Draw(t, "one")] = 0
	}
	return c
}

func runM06spread(c m06spread, x *Ctx) error {
	h := newHome(x, "m06s")
	defer h.done()
	s := pwSettings{c.Len, c.Min}
	if s.impossible() {
		return infra("impossible settings %+v", s)
	}
	// The least likely character of a class at a position, with some room for
	// skewed choices. With a minimum for a class and nothing else the class has
	// its minimum only.
	on, sum := 0, 0
	for _, m := range c.Min {
		if m >= 0 {
			on++
			sum += max(m, 0)
		}
	}
	least := 1.0
	for k, m := range c.Min {
		if m >= 0 {
			share := (float64(m) + float64(c.Len-sum)/float64(on)) / float64(c.Len)
			if share > 0 {
				least = min(least, share/float64(len(pwClasses[k]))*0.6)
			}
		}
	}
	// so that missing one of all by chance has a probability of 1e-13
	n := int(math.Log(float64(c.Len)*96*1e13)/least) + 1
	if n > 60000 {
		x.Label("too rare")
		return nil
	}
	in := ""
	if c.Len != 32 {
		in = strconv.Itoa(c.Len) + "\n"
	}
	for k, m := range c.Min {
		in += fmt.Sprintf("%c %d\n", "ulnbe"[k], m)
	}
	have := make([][256]bool, c.Len)
	all := map[string]bool{}
	var joint pwJoint
	for run := 0; run < c.Runs; run++ {
		r, err := h.run([]string{"--no-color", "gen"}, strings.NewReader(in+strings.Repeat("\n", n/c.Runs+1)+"y\n"))
		if err != nil {
			return err
		}
		if r.RC != 0 {
			return failf("gen with minima %v and length %d: %s", c.Min, c.Len, r.tail())
		}
		seen := pwLines(r.Out)
		seen = seen[max(0, len(seen)-n/c.Runs-1):]
		for _, p := range seen {
			if err := s.conforms(p.pw); err != nil || p.refused {
				return failf("gen with minima %v and length %d: %q %v", c.Min, c.Len, p.pw, err)
			}
			for i := range have {
				have[i][p.pw[i]] = true
			}
			joint.add(p.pw)
			if c.Len >= 14 {
				if all[p.pw] && float64(c.Len-sum)*math.Log2(8)+float64(sum)*3 > 90 {
					return failf("gen with minima %v and length %d: %q is repeated", c.Min, c.Len, p.pw)
				}
				all[p.pw] = true
			}
		}
	}
	for i := range have {
		for k, m := range c.Min {
			if m < 0 || m == 0 && c.Len == sum {
				continue
			}
			for _, ch := range []byte(pwClasses[k]) {
				if !have[i][ch] {
					return failf("gen with minima %v and length %d: %q never occurs at position %d in %d passwords", c.Min, c.Len, ch, i, n)
				}
			}
		}
	}
	if err := joint.independent(); err != nil {
		return failf("gen with minima %v and length %d: %v", c.Min, c.Len, err)
	}
	x.NonTrivial()
	x.Logf("%d passwords", n)
	return nil
}

// pwJoint collects what the characters of passwords have to do with each other.
type pwJoint struct {
	n     int
	pairs [5]float64 // of characters of the same class
	equal [5]float64
	first [5][5]map[[2]int]int // the first characters of two classes
}

func (j *pwJoint) add(pw string) {
	var count [5]map[byte]int
	var total [5]int
	var first [5]int
	for i := 0; i < len(pw); i++ {
		for k, cl := range pwClasses {
			if at := strings.IndexByte(cl, pw[i]); at >= 0 {
				if count[k] == nil {
					count[k] = map[byte]int{}
					first[k] = at
				}
				count[k][pw[i]]++
				total[k]++
			}
		}
	}
	j.n++
	for k := range count {
		j.pairs[k] += float64(total[k] * (total[k] - 1) / 2)
		for _, n := range count[k] {
			j.equal[k] += float64(n * (n - 1) / 2)
		}
		for l := 0; l < k; l++ {
			if total[k] > 0 && total[l] > 0 {
				if j.first[k][l] == nil {
					j.first[k][l] = map[[2]int]int{}
				}
				j.first[k][l][[2]int{first[k], first[l]}]++
			}
		}
	}
}

// independent checks that characters do not determine each other. Two
// characters of a class are equal as often as not to be expected, with 10
// standard deviations and a 5% skew of the choice allowed. For two classes
// it's the test of independence with 12 standard deviations and a skew
// allowed that a byte modulo the size of the class has.
func (j *pwJoint) independent() error {
	for k, m := range j.pairs {
		p := 1 / float64(len(pwClasses[k]))
		if m < 50 {
			continue
		}
		// pairs of one password have characters in common
		d := 10*math.Sqrt(2*m*p) + 10
		if e := j.equal[k]; e > m*p*1.05+d || e < m*p*0.95-d {
			return failf("in %d passwords %.0f of %.0f pairs of characters of %q are equal, about %.0f are to be expected", j.n, e, m, pwClasses[k], m*p)
		}
		for l := 0; l < k; l++ {
			tab := j.first[k][l]
			n := 0.0
			row, col := map[int]float64{}, map[int]float64{}
			for at, c := range tab {
				n += float64(c)
				row[at[0]] += float64(c)
				col[at[1]] += float64(c)
			}
			if n < 500 {
				continue
			}
			chi := 0.0
			for a, r := range row {
				for b, c := range col {
					e := r * c / n
					d := float64(tab[[2]int{a, b}]) - e
					chi += d * d / e
				}
			}
			df := float64((len(row) - 1) * (len(col) - 1))
			// small cells make the distribution wider
			if chi > df+12*math.Sqrt(2*df+float64(len(row)*len(row)*len(col)*len(col))/n)+40 {
				return failf("in %d passwords the first characters of %q and %q depend on each other (chi squared %.0f, %.0f degrees of freedom)", j.n, pwClasses[k], pwClasses[l], chi, df)
			}
		}
	}
	return nil
}

func init() {
	part("M06", "dialogue", 5000, 60000,
		"gen with 0..40 lines of its dialogue (lengths, class settings with minima up to the limits of integers, copying, odd lines); every password shown is checked against a model of the settings, refusals exactly for impossible ones; non-trivial: at least 3 passwords were generated",
		genM06, runM06)
	part("M06", "spread", 300, 4000,
		"thousands of passwords for generated length and minima, as many as make a character missing at a position by chance impossible (1e-13); every character of every enabled class must occur at every position and none is repeated; non-trivial: all of them",
		genM06spread, runM06spread)
}
