package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/types"
	"vharness/vrun"
)

func init() { props["C13"] = c13 }

// ops makes and runs numbered calls; the number says everything about the call.
type ops struct {
	w    *world
	ts   []*T
	bad  []reflect.Type
	seed uint64
	rnd  map[int]*T

	same    []*T // many types of one name
	sameBad []reflect.Type

	kept []kept
}

// kept is what a call left behind; later calls must not change it.
type kept struct {
	id  int
	p   reflect.Value
	sum uint64
}

// changed names the calls whose results are not what they were.
func (o *ops) changed() []int {
	var ids []int
	for i := range o.kept {
		k := &o.kept[i]
		if s := content(k.p); s != k.sum {
			ids = append(ids, k.id)
			k.sum = s
		}
	}
	return ids
}

func newOps(seed uint64) *ops {
	o := &ops{w: &world{ld: model.NewLoader()}, seed: seed, rnd: map[int]*T{}}
	add := func(x any) {
		t := reflect.TypeOf(x).Elem()
		m, err := o.w.ld.Load(t)
		if err != nil {
			harnessBug("%v", err)
		}
		o.ts = append(o.ts, &T{t.Name(), m})
	}
	for _, x := range types.All {
		add(x)
	}
	for i := 0; i < 3; i++ {
		f := types.Families[90+i]()
		for _, x := range f.Good {
			add(x)
		}
		for _, x := range f.Bad {
			o.bad = append(o.bad, reflect.TypeOf(x).Elem())
		}
	}
	for _, x := range types.SameGood {
		add(x)
		o.same = append(o.same, o.ts[len(o.ts)-1])
	}
	for _, x := range types.SameBad {
		o.bad = append(o.bad, reflect.TypeOf(x).Elem())
		o.sameBad = append(o.sameBad, reflect.TypeOf(x).Elem())
	}
	for _, x := range types.OneofCases {
		o.bad = append(o.bad, reflect.TypeOf(x.V).Elem())
	}
	for _, x := range types.DupOneofs {
		o.bad = append(o.bad, reflect.TypeOf(x).Elem())
	}
	return o
}

const nRand = 12

// run performs call id and returns a digest of its outcome.
func (o *ops) run(id int) (dig string) {
	defer func() {
		if e := recover(); e != nil {
			dig = fmt.Sprintf("panic:%.60v", strings.ReplaceAll(fmt.Sprint(e), " ", "_"))
		}
	}()
	g := model.NewRng(o.seed, 4242, uint64(id))
	if g.P(8) {
		return o.badOp(g, o.bad)
	}
	if g.P(4) {
		return o.badOp(g, o.sameBad)
	}
	if g.P(5) {
		return o.deepOp(g)
	}
	k := g.N(len(o.ts) + nRand)
	var t *T
	if k < len(o.ts) {
		t = o.ts[k]
	} else {
		i := k - len(o.ts)
		if o.rnd[i] == nil {
			o.rnd[i] = o.w.random(o.seed, 70000+i)
		}
		t = o.rnd[i]
	}
	if g.P(8) {
		t = o.same[g.N(len(o.same))]
	}
	op := g.N(9)
	budget := g.Pick(6, 12, 40, 200)
	v := t.M.GenTop(g, budget, true)
	enc := func(b []byte, err error) string {
		if err != nil {
			return "error"
		}
		got := model.NewMV()
		if e := t.M.Decode(b, got); e != nil {
			return "malformed"
		}
		return fmt.Sprintf("%d:%x", len(b), model.HashStr(model.Dump(got)))
	}
	switch op {
	case 0:
		p := t.M.New(v, model.FillOpts{R: g})
		b, err := prutal.Marshal(p.Interface())
		return t.Name + ":marshal:" + enc(b, err)
	case 1:
		p := t.M.New(v, model.FillOpts{R: g})
		n, err := prutal.Size(p.Interface())
		return fmt.Sprintf("%s:size:%d:%v", t.Name, n, err != nil)
	case 2:
		p := t.M.New(v, model.FillOpts{R: g})
		pre := g.Bytes(g.N(30))
		b, err := prutal.MarshalAppend(append(make([]byte, 0, len(pre)+g.N(100)), pre...), p.Interface())
		if err == nil && !bytes.HasPrefix(b, pre) {
			return "prefix lost"
		}
		return t.Name + ":append:" + enc(b[min(len(pre), len(b)):], err)
	}
	in := t.M.Hostile(g, v, model.HostileOpts{Unknown: true})
	switch {
	case op >= 7: // damaged
		in = t.M.MutateDeep(g, in)
	case op == 6:
		in = in[:g.N(len(in)+1)]
	}
	p := reflect.New(t.M.Type)
	if g.P(25) {
		t.M.Fill(p.Elem(), t.M.GenTop(g, 10, true), model.FillOpts{R: g})
	}
	err := prutal.Unmarshal(in, p.Interface())
	sum := content(p)
	if len(o.kept) < 2000 {
		o.kept = append(o.kept, kept{id, p, sum})
	}
	return fmt.Sprintf("%s:unmarshal:%v:%x", t.Name, err != nil, sum)
}

func (o *ops) badOp(g *model.Rng, bad []reflect.Type) string {
	t := bad[g.N(len(bad))]
	p := reflect.New(t).Interface()
	var err error
	switch g.N(3) {
	case 0:
		_, err = prutal.Marshal(p)
	case 1:
		_, err = prutal.Size(p)
	case 2:
		err = prutal.Unmarshal([]byte{8, 1}, p)
	}
	return fmt.Sprintf("bad:%v", err != nil)
}

func (o *ops) deepOp(g *model.Rng) string {
	n := g.Pick(3, 900, 1000, 1001, 1500)
	var x *types.Deep
	for i := 0; i < n; i++ {
		y := &types.Deep{I: int32(i)}
		if x != nil {
			switch g.N(6) {
			case 0:
				y.P = x
			case 1:
				y.LP = []*types.Deep{{}, x}
			case 2:
				y.MS = map[string]*types.Deep{"a": x}
			case 3:
				y.MI = map[int32]*types.Deep{1: x}
			case 4:
				y.MV = map[string]types.Deep{"b": *x}
			case 5:
				y.O = &types.Deep_OP{OP: x}
			}
		}
		x = y
	}
	if g.P(20) {
		x.P = x
	}
	b, err := prutal.Marshal(x)
	m, err2 := prutal.Size(x)
	return fmt.Sprintf("deep:%d:%v:%d:%v", len(b)*b2i(err == nil), err != nil, m*b2i(err2 == nil), err2 != nil)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// dirty leaves used memory behind.
func dirty(g *model.Rng) {
	for i := 0; i < 30; i++ {
		b := make([]byte, g.Pick(8, 16, 32, 64, 128, 512, 1024, 2048, 4096, 8192))
		fill(b, 0xA5)
		if g.P(5) {
			sink = append(sink, b)
		}
	}
	if len(sink) > 100 {
		sink = nil
	}
	runtime.GC()
}

var sink [][]byte

// c13child runs the calls named on its standard input.
func c13child(r *vrun.Run) {
	o := newOps(r.Seed)
	g := model.NewRng(r.Seed, uint64(os.Getpid()))
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		for _, w := range strings.Fields(sc.Text()) {
			if w == "dirty" {
				dirty(g)
				continue
			}
			id, err := strconv.Atoi(w)
			if err != nil {
				harnessBug("%v", err)
			}
			fmt.Fprintf(out, "%d %s\n", id, o.run(id))
		}
	}
	for _, id := range o.changed() {
		fmt.Fprintf(out, "changed %d\n", id)
	}
	fmt.Fprintf(out, "kept %d\n", len(o.kept))
	out.Flush()
	os.Exit(0)
}

func c13(r *vrun.Run) {
	if r.Args["child"] != "" {
		c13child(r)
	}
	self, err := os.Executable()
	if err != nil {
		harnessBug("%v", err)
	}
	child := func(c *vrun.Case, env []string, words []string) []string {
		cmd := exec.Command(self, "-prop", "C13", "-seed", fmt.Sprint(r.Seed), "-args", "child=1")
		cmd.Env = append(os.Environ(), env...)
		cmd.Stdin = strings.NewReader(strings.Join(words, "\n") + "\n")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil {
			s := errb.String()
			if len(s) > 3000 {
				s = s[:3000]
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 8 {
				c.FailD(s, "a history of calls ends the process: %v; after %d results; calls %v", err, strings.Count(out.String(), "\n"), words)
			}
			harnessBug("child: %v %s", err, s)
		}
		return strings.Split(strings.TrimSpace(out.String()), "\n")
	}
	nops := r.Scale(300, 3000)
	base := map[int]string{}
	baseline := func(c *vrun.Case, id int) string {
		if base[id] == "" {
			l := child(c, nil, []string{fmt.Sprint(id)})
			if len(l) == 3 && strings.HasPrefix(l[1], "changed ") {
				c.FailD(l, "the result of a single call changes by itself")
			}
			if len(l) != 2 {
				harnessBug("child says %v", l)
			}
			base[id] = l[0]
			c.Add("fresh_processes", 1)
		}
		return base[id]
	}
	for k := 0; k < r.Scale(50, 1000); k++ {
		id := fmt.Sprintf("history/%d/%d", r.Shard, k)
		r.DoHere(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			var words []string
			n := 400
			for i := 0; i < n; i++ {
				switch {
				case g.P(4):
					words = append(words, "dirty")
				case g.P(60):
					words = append(words, fmt.Sprint(r.Shard*1000000+g.N(nops)))
				default: // calls that only make history
					words = append(words, fmt.Sprint(900000000+g.N(1000000)))
				}
			}
			env := [][]string{nil, {"GODEBUG=clobberfree=1", "GOGC=5"}, {"GOGC=off"}, {"GODEBUG=clobberfree=1", "GOGC=20", "GOMAXPROCS=1"}}[g.N(4)]
			for _, l := range child(c, env, words) {
				num, rest, _ := strings.Cut(l, " ")
				if num == "kept" {
					n, _ := strconv.Atoi(rest)
					c.Add("kept_results_verified", n)
					continue
				}
				if num == "changed" {
					c.FailD(words, "the value filled by call %s changed during later calls", rest)
				}
				x, _ := strconv.Atoi(num)
				if x >= 900000000 {
					continue
				}
				if b := baseline(c, x); b != l {
					c.FailD(words, "call %d gives %q in a fresh process and %q after other calls", x, b, l)
				}
				c.Eval(1)
				c.Seen(num)
				c.Add("results_compared", 1)
			}
			c.Add("histories", 1)
			if c.WantSample() {
				c.Sample(fmt.Sprintf("%d calls in one process, e.g. %v", n, base[r.Shard*1000000]))
			}
		})
	}
}
