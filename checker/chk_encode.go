package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The properties of the encoder share one exploration: every encode function
// in every configuration. It is spread over processes, as the tables of the
// engine are global.

type encTask struct {
	Kind string // codec
	A, B int
}

type encResult struct {
	Task    encTask
	Name    string
	Viols   []encViol
	Content map[string]string
	Fns     []string
	Strs    []string
	Steps   int
	States  int
	Sites   int
	Exits   int
	Nodes   int
	Secs    float64
	MB      int
}

type encWorld struct {
	c    *Ctx
	api  *encAPI
	cs   *codecSet
	roll string
}

func newEncWorld(c *Ctx) *encWorld {
	api := findEncAPI(c)
	if api == nil {
		return nil
	}
	cs := findCodecs(c)
	if cs == nil {
		return nil
	}
	return &encWorld{c: c, api: api, cs: cs}
}

func (w *encWorld) tasks() []encTask {
	var t []encTask
	for i, cf := range w.cs.enc {
		if !cf.built || os.Getenv("VERIF_SKIP") != "" && strings.Contains(cf.name, os.Getenv("VERIF_SKIP")) {
			continue
		}
		for j := range encConfigs {
			t = append(t, encTask{"codec", i, j})
		}
	}
	return t
}

// cost orders the tasks so that large ones start first.
func (w *encWorld) cost(t encTask) int {
	n := 0
	for f := range reachable(w.c.p, w.cs.enc[t.A].fn.fn) {
		if w.c.p.inMain(f) {
			for _, b := range f.Blocks {
				n += len(b.Instrs)
			}
		}
	}
	return n
}

func (w *encWorld) run(t encTask) (res encResult) {
	cf := w.cs.enc[t.A]
	cfg := encConfigs[t.B]
	res = encResult{Task: t, Name: shortFn(cf.name) + " with " + cfg.String()}
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("VERIF_PANIC") != "" {
				panic(x)
			}
			res.Viols = append(res.Viols, encViol{"engine", fmt.Sprintf("the analysis failed: %v", x)})
		}
	}()
	start := time.Now()
	r := encRoot(w.c, w.api, w.cs, cf, cfg, func(r *encRun) { r.rollT = rollbackType(w.c, w.cs) })
	res.Viols = r.check()
	res.Content = r.content
	for f := range r.e.fns {
		res.Fns = append(res.Fns, f.String())
	}
	for _, s := range r.strUsed {
		res.Viols = append(res.Viols, s.viols...)
		for f := range s.e.fns {
			res.Fns = append(res.Fns, f.String())
		}
	}
	for _, o := range effectObl {
		if !o.ok {
			res.Viols = append(res.Viols, encViol{"effect", o.what + ": " + o.msg})
		}
	}
	effectObl = map[string]*Obligation{}
	res.Secs = time.Since(start).Seconds()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	res.MB = int(m.HeapAlloc >> 20)
	res.Steps, res.States, res.Sites, res.Exits, res.Nodes = r.e.steps, len(r.e.seen), len(r.e.sites), len(r.exits), len(r.e.g.nodes)
	return res
}

func worker() {
	debug.SetGCPercent(200)
	maxHeap = 2800 << 20
	debug.SetMemoryLimit(2200 << 20)
	if d, err := strconv.ParseInt(os.Getenv("VERIF_DEADLINE"), 10, 64); err == nil {
		deadline = time.Unix(d, 0)
	}
	p, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c := &Ctx{id: "worker", p: p, obl: map[string]*Obligation{}, fns: map[string]bool{}, cov: map[string]any{}}
	w := newEncWorld(c)
	if w == nil {
		os.Exit(2)
	}
	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var t encTask
		if json.Unmarshal(in.Bytes(), &t) != nil {
			os.Exit(2)
		}
		out.Encode(w.run(t))
	}
}

// taskBudget is the time after which the remaining tasks are undecided.
const taskBudget = 450 * time.Second

// runTasks distributes tasks over worker processes.
func runTasks(tasks []encTask, n int) ([]encResult, error) {
	end := time.Now().Add(taskBudget).Unix()
	var mu sync.Mutex
	next := 0
	var res []encResult
	var first error
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := func() error {
				cmd := exec.Command("/proc/self/exe", "-worker")
				cmd.Stderr = os.Stderr
				cmd.Env = append(os.Environ(), fmt.Sprint("VERIF_DEADLINE=", end))
				in, err := cmd.StdinPipe()
				if err != nil {
					return err
				}
				out, err := cmd.StdoutPipe()
				if err != nil {
					return err
				}
				if err := cmd.Start(); err != nil {
					return err
				}
				defer cmd.Wait()
				defer in.Close()
				dec := json.NewDecoder(out)
				for {
					mu.Lock()
					if next == len(tasks) || first != nil {
						mu.Unlock()
						return nil
					}
					t := tasks[next]
					next++
					mu.Unlock()
					b, _ := json.Marshal(t)
					if _, err := in.Write(append(b, '\n')); err != nil {
						return fmt.Errorf("worker: %w", err)
					}
					var r encResult
					if err := dec.Decode(&r); err != nil {
						if err == io.EOF {
							err = fmt.Errorf("a worker process ended")
						}
						return fmt.Errorf("worker: %w", err)
					}
					mu.Lock()
					res = append(res, r)
					mu.Unlock()
				}
			}()
			if err != nil {
				mu.Lock()
				if first == nil {
					first = err
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return res, first
}

var encRules = map[string]string{
	"grammar":     "the output is one JSON value",
	"end":         "the output is one complete JSON value",
	"string":      "strings are escaped",
	"escapes":     "strings are escaped as the options say",
	"number":      "numbers are valid",
	"layout":      "the layout is the standard one",
	"color":       "tokens are written in their colour",
	"colorclass":  "tokens are written in their colour",
	"reset":       "colours are closed by a reset",
	"escape":      "no escape codes without colours",
	"output":      "nothing of a failed value is part of a successful output",
	"lost error":  "errors of nested values are returned",
	"level":       "the indentation level is restored",
	"prefix":      "the destination is kept",
	"propagation": "nested values get the same options",
	"raw":         "raw text is checked before it is written",
	"rawtoken":    "the tokens of raw text are kept",
	"effect":      "the encoded value is not changed",
	"panic":       "the encoder does not panic",
}

// encodeCheck runs the exploration and keeps the violations of some rules.
func encodeCheck(rules ...string) func(c *Ctx) {
	return func(c *Ctx) { encodeRes(c, rules...) }
}

// colourCheck compares the outputs with colours with the ones without.
func colourCheck(c *Ctx) {
	by := map[string]map[int]encResult{}
	for _, r := range encodeRes(c) {
		n, _, _ := strings.Cut(r.Name, " with ")
		if by[n] == nil {
			by[n] = map[int]encResult{}
		}
		by[n][r.Task.B] = r
	}
	plainOf := map[string]int{}
	for i, x := range encConfigs {
		if x.clrs == "nil" {
			plainOf[fmt.Sprint(x.html)] = i
		}
	}
	form := map[string]bool{"grammar": true, "end": true, "string": true, "number": true, "output": true, "raw": true, "rawtoken": true, "lost error": true}
	for n, rs := range by {
		for i, x := range encConfigs {
			if x.clrs == "nil" {
				continue
			}
			p, q := rs[plainOf[fmt.Sprint(x.html)]], rs[i]
			what := n + " with " + x.String()
			c.ob("colour", "the same content is written: "+what, true, "")
			c.ob("colour", "the output is well-formed if it is without colours: "+what, true, "")
			for d, fn := range q.Content {
				if _, ok := p.Content[d]; !ok {
					c.fail("colour", "the same content is written: "+what, fmt.Sprintf("only with colours %s writes %s", fn, d))
				}
			}
			for d, fn := range p.Content {
				if _, ok := q.Content[d]; !ok {
					c.fail("colour", "the same content is written: "+what, fmt.Sprintf("only without colours %s writes %s", fn, d))
				}
			}
			have := map[string]bool{}
			for _, v := range p.Viols {
				have[v.Rule] = true
			}
			for _, v := range q.Viols {
				if form[v.Rule] && !have[v.Rule] {
					c.fail("colour", "the output is well-formed if it is without colours: "+what, v.Msg)
				}
			}
		}
	}
}

func encodeRes(c *Ctx, rules ...string) []encResult {
	w := newEncWorld(c)
	if w == nil {
		return nil
	}
	return encodeResW(c, w, rules...)
}

func encodeResW(c *Ctx, w *encWorld, rules ...string) []encResult {
	c.addEngine(w.cs.e)
	tasks := w.tasks()
	if !c.need(len(tasks) >= 5*20, "encode functions", fmt.Sprintf("only %d encode functions were found", len(tasks)/5)) {
		return nil
	}
	sort.SliceStable(tasks, func(i, j int) bool { return w.cost(tasks[i]) > w.cost(tasks[j]) })
	n := 7
	res, err := runTasks(tasks, n)
	if err != nil {
		c.fail("engine", "exploration of the encode functions", err.Error())
	}
	keep := map[string]bool{"engine": true}
	for _, r := range rules {
		keep[r] = true
	}
	exits, nodes := 0, 0
	names := map[string]bool{}
	for _, r := range res {
		if os.Getenv("VERIF_TASKS") != "" {
			fmt.Printf("TASK %6.1fs %5dMB steps %6d nodes %6d viols %d %s\n", r.Secs, r.MB, r.Steps, r.Nodes, len(r.Viols), r.Name)
		}
		for _, k := range rules {
			c.ob(k, encRules[k]+": "+r.Name, true, "")
		}
		for _, v := range r.Viols {
			if keep[v.Rule] {
				what := encRules[v.Rule] + ": " + r.Name
				if v.Rule == "engine" {
					what = "analysis of " + r.Name
				}
				c.fail(v.Rule, what, v.Msg)
			}
		}
		for _, f := range r.Fns {
			c.fns[f] = true
		}
		c.steps += r.Steps
		c.paths += r.States
		c.sites += r.Sites
		exits += r.Exits
		nodes += r.Nodes
		n, _, _ := strings.Cut(r.Name, " with ")
		names[n] = true
	}
	c.cov["exits"] = exits
	c.cov["output_nodes"] = nodes
	c.cov["encode_functions"] = len(names)
	var cfgs []string
	for _, x := range encConfigs {
		cfgs = append(cfgs, x.String()+fmt.Sprintf(", HTML escaping %v", x.html))
	}
	c.cov["configurations"] = cfgs
	return res
}

const encAll = "every exit of every encode function that codecs are built from, in every configuration of colours and indentation: "

func init() {
	reg := func(id, rule string, rules ...string) {
		register(&Check{id: id, level: "other", rule: encAll + rule, run: encodeCheck(rules...)})
	}
	reg("C01", "the destination is followed by one complete JSON value", "grammar", "end", "string", "number", "output")
	register(&Check{id: "C02", level: "other", rule: encAll + "with colours the same tokens with the same content are written as without", run: colourCheck})
	reg("C03", "every colour prefix is followed by one token and the reset sequence", "reset")
	reg("C04", "every token is written in the colour of its kind", "colorclass")
	reg("C05", "without colours nothing but tokens is written", "escape", "color")
	reg("C06", "the white space between tokens is the standard one", "layout")
	reg("C07", "the indentation level is the same before and after", "level")
	register(&Check{id: "C08", level: "other", rule: "every function that writes a string token is compared with the reference of escaping, byte by byte and for every path; " + encAll + "strings are written by these functions, with the escapes that the options ask for", run: escapeCheck})
	reg("C09", "numbers are written in the format of their type", "number")
	reg("C10", "raw text that is written was checked in full", "raw", "rawtoken")
	reg("C11", "no error of a nested value is dropped", "lost error")
	reg("C18", "the result begins with the destination", "prefix")
	if os.Getenv("VERIF_DEV") != "" {
		var all []string
		for k := range encRules {
			all = append(all, k)
		}
		reg("ENC", "everything", all...)
	}
	reg("C19", "nested values get the same options", "propagation")
}
