// Package main is the conformance driver: it executes abstract cases (written
// by TLC from the specifications, or by the seeded generators here) on the real
// modelconv code and records what happened as ndjson events.  It contains no
// oracle: every verdict is taken by the TLA+ trace specifications.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Case is one abstract input: an identifier and a domain specific payload.
type Case struct {
	ID   string          `json:"id"`
	Body json.RawMessage `json:"body"`
}

// Event is one recorded step of the real code.
type Event = map[string]interface{}

// Domain binds a specification domain to the real code.
type Domain struct {
	// Gen produces seeded random cases (recorded executions beyond TLC's bounds).
	Gen func(r *rand.Rand, n int) []interface{}
	// Run executes the case on the real code and emits events.
	Run func(body json.RawMessage, emit func(Event))
	// Fixed produces hand written regression cases, keyed by case id.
	Fixed func() map[string]interface{}
}

var domains = map[string]*Domain{}

func reg(name string, d *Domain) { domains[name] = d }

// norm turns a value into JSON generic form in which no null occurs
// (nil slices and pointers become empty sequences).
func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: cannot encode event: " + err.Error())
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var g interface{}
	if err := d.Decode(&g); err != nil {
		panic("harness: cannot decode event: " + err.Error())
	}
	return denull(g)
}

func denull(g interface{}) interface{} {
	switch x := g.(type) {
	case nil:
		return []interface{}{}
	case []interface{}:
		for i := range x {
			x[i] = denull(x[i])
		}
		return x
	case map[string]interface{}:
		for k := range x {
			x[k] = denull(x[k])
		}
		return x
	case json.Number:
		s := x.String()
		if strings.ContainsAny(s, ".eE") {
			return "float:" + s
		}
		return x
	}
	return g
}

// milli projects a float to an integer number of thousandths.
func milli(v float32) int {
	f := float64(v) * 1000
	if math.IsNaN(f) {
		return 2000000001
	}
	if f > 2e9 {
		return 2000000000
	}
	if f < -2e9 {
		return -2000000000
	}
	return int(math.Round(f))
}

// bits projects a float32 to its bit pattern (as a signed 32 bit integer).
func bits(v float32) int {
	if v == 0 {
		v = 0 // -0 and 0 are the same number
		return 0
	}
	return int(int32(math.Float32bits(v)))
}

func unbits(i int) float32 { return math.Float32frombits(uint32(int32(i))) }

func unmilli(i int) float32 { return float32(float64(i) / 1000) }

func workerMain(name string) {
	d := domains[name]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown domain", name)
		os.Exit(3)
	}
	// A runaway allocation ends this worker (recorded as a crash), not the sandbox.
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 5 << 30, Max: 5 << 30})
	debug.SetMaxStack(128 << 20) // endless recursion ends soon
	out := bufio.NewWriterSize(os.NewFile(3, "events"), 1<<16)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	if os.Getenv("HARNESS_LOG") == "" {
		log.SetOutput(ioutil.Discard)
	}
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, "bad case:", e)
				os.Exit(3)
			}
			evs := runCase(d, c)
			for _, ev := range evs {
				b, e := json.Marshal(norm(ev))
				if e != nil {
					panic(e)
				}
				out.Write(b)
				out.WriteByte('\n')
			}
			out.WriteString("#done\n")
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

func runCase(d *Domain, c Case) (evs []Event) {
	n := 0
	emit := func(ev Event) {
		ev["case"] = c.ID
		ev["step"] = n
		n++
		evs = append(evs, norm(ev).(map[string]interface{}))
	}
	emit(Event{"op": "begin"})
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "harness:") {
				fmt.Fprintln(os.Stderr, msg, string(debug.Stack()))
				os.Exit(3)
			}
			if os.Getenv("HARNESS_LOG") != "" {
				fmt.Fprintln(os.Stderr, msg, string(debug.Stack()))
			}
			emit(Event{"op": "crash", "how": "panic", "msg": msg})
		}
	}()
	d.Run(c.Body, emit)
	return
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker(name string) *worker {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "worker", name)
	if os.Getenv("HARNESS_LOG") == "" {
		cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		log.Fatal(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		log.Fatal(err)
	}
	cmd.ExtraFiles = []*os.File{w}
	if os.Getenv("HARNESS_LOG") != "" {
		cmd.Stderr = os.Stderr
	} else {
		cmd.Stderr = nil
	}
	cmd.Stdout = nil
	if err := cmd.Start(); err != nil {
		log.Fatal(err)
	}
	w.Close()
	return &worker{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20)}
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// feed runs one case; a dead or stuck worker is itself a recorded event.
func (w *worker) feed(c Case, timeout time.Duration) (lines []string, alive bool) {
	b, _ := json.Marshal(c)
	w.in.Write(append(b, '\n'))
	type res struct {
		lines []string
		ok    bool
	}
	ch := make(chan res, 1)
	go func() {
		var ls []string
		for {
			l, err := w.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "#done" {
				ch <- res{ls, true}
				return
			}
			if l != "" {
				ls = append(ls, l)
			}
			if err != nil {
				ch <- res{ls, false}
				return
			}
		}
	}()
	fail := func(how string) []string {
		b1, _ := json.Marshal(Event{"op": "begin", "case": c.ID, "step": 0})
		b2, _ := json.Marshal(Event{"op": "crash", "how": how, "msg": how, "case": c.ID, "step": 1})
		return []string{string(b1), string(b2)}
	}
	select {
	case r := <-ch:
		if r.ok {
			return r.lines, true
		}
		w.cmd.Wait()
		if ps := w.cmd.ProcessState; ps != nil && ps.ExitCode() == 3 {
			fmt.Fprintln(os.Stderr, "harness worker failed on case", c.ID)
			os.Exit(3)
		}
		return fail("exit"), false
	case <-time.After(timeout):
		return fail("timeout"), false
	}
}

func main() {
	if len(os.Args) >= 3 && os.Args[1] == "worker" {
		workerMain(os.Args[2])
		return
	}
	if len(os.Args) < 3 || os.Args[1] != "drive" {
		fmt.Fprintln(os.Stderr, "usage: harness drive DOMAIN -cases F -out PREFIX ...")
		os.Exit(3)
	}
	name := os.Args[2]
	d := domains[name]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown domain", name)
		os.Exit(3)
	}
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	casesFile := fs.String("cases", "", "ndjson cases")
	out := fs.String("out", "", "output prefix")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 0, "random cases")
	shards := fs.Int("shards", 8, "shards")
	only := fs.String("only", "", "run only this case id")
	timeout := fs.Int("timeout", 60, "seconds per case")
	nofixed := fs.Bool("nofixed", false, "skip fixed cases")
	fs.Parse(os.Args[3:])

	var cases []Case
	add := func(id string, v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			log.Fatal(err)
		}
		cases = append(cases, Case{ID: id, Body: b})
	}
	if d.Fixed != nil && !*nofixed {
		m := d.Fixed()
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			add("fixed:"+k, m[k])
		}
	}
	if *casesFile != "" {
		f, err := os.Open(*casesFile)
		if err != nil {
			log.Fatal(err)
		}
		rd := bufio.NewReaderSize(f, 1<<20)
		i := 0
		for {
			line, err := rd.ReadBytes('\n')
			if len(line) > 1 {
				var c Case
				if json.Unmarshal(line, &c) == nil && c.ID != "" && len(c.Body) > 0 {
					cases = append(cases, c)
				} else {
					cases = append(cases, Case{ID: fmt.Sprintf("tlc:%d", i), Body: append(json.RawMessage{}, line...)})
				}
				i++
			}
			if err != nil {
				break
			}
		}
		f.Close()
	}
	if d.Gen != nil && *n > 0 {
		for i, c := range d.Gen(rand.New(rand.NewSource(*seed)), *n) {
			add(fmt.Sprintf("rnd:%d:%d", *seed, i), c)
		}
	}
	if *only != "" {
		var keep []Case
		for _, c := range cases {
			if c.ID == *only {
				keep = append(keep, c)
			}
		}
		cases = keep
	}
	if len(cases) < *shards {
		*shards = len(cases)
	}
	var wg sync.WaitGroup
	total, ran := make([]int, *shards), make([]int, *shards)
	for s := 0; s < *shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			f, err := os.Create(fmt.Sprintf("%s.%d.ndjson", *out, s))
			if err != nil {
				log.Fatal(err)
			}
			defer f.Close()
			bw := bufio.NewWriter(f)
			defer bw.Flush()
			cf, _ := os.Create(fmt.Sprintf("%s.%d.cases", *out, s))
			defer cf.Close()
			w := startWorker(name)
			var lost time.Duration // a shard whose cases keep dying or hanging is given up after a while
			for i := s; i < len(cases) && lost < 90*time.Second; i += *shards {
				t0 := time.Now()
				cb, _ := json.Marshal(cases[i])
				cf.Write(append(cb, '\n'))
				lines, alive := w.feed(cases[i], time.Duration(*timeout)*time.Second)
				for _, l := range lines {
					bw.WriteString(l)
					bw.WriteByte('\n')
				}
				total[s] += len(lines)
				ran[s]++
				if !alive {
					lost += time.Since(t0) + 100*time.Millisecond
					w.stop()
					w = startWorker(name)
				}
			}
			w.stop()
		}(s)
	}
	wg.Wait()
	t, c := 0, 0
	for i, x := range total {
		t += x
		c += ran[i]
	}
	fmt.Printf("{\"cases\":%d,\"events\":%d,\"shards\":%d,\"skipped\":%d}\n", c, t, *shards, len(cases)-c)
}
