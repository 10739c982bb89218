//go:build go1.21

// Bounded checks of the Sereal properties against the real package, through
// its exported interface. They stand in for what the verifier does not decide
// and look for concrete inputs when an obligation fails.
package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

type ctx struct {
	r     *rand.Rand
	h     io.Writer
	sum   func() uint64
	nt    bool // non-trivial
	data  []kv
	trace bool
	class string
}

type kv struct{ k, v string }

// in records an input of the case.
func (c *ctx) in(name string, b []byte) {
	c.h.Write(b)
	c.h.Write([]byte{0xfe, byte(len(name))})
	if len(c.data) < 40 {
		c.data = append(c.data, kv{name, hex.EncodeToString(b)})
	}
}

func (c *ctx) say(name, f string, a ...interface{}) {
	if len(c.data) < 40 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		io.WriteString(c.h, s)
		c.data = append(c.data, kv{name, s})
	}
}

func newCtx(seed uint64) *ctx {
	h := fnv.New64a()
	return &ctx{r: rand.New(rand.NewSource(int64(mix(seed)))), h: h, sum: h.Sum64}
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

type property struct {
	run  func(c *ctx) error
	rule string
}

var properties = map[string]property{}

func runCase(p property, seed uint64) (c *ctx, err error) {
	c = newCtx(seed)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trim(debug.Stack()))
		}
	}()
	err = p.run(c)
	return c, err
}

func trim(b []byte) []byte {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return b
}

type report struct {
	Property    string            `json:"property"`
	Seed        uint64            `json:"seed"`
	Evaluations int64             `json:"evaluations"`
	Distinct    int               `json:"distinct_nontrivial"`
	Rule        string            `json:"rule"`
	Samples     []string          `json:"samples"`
	Violation   string            `json:"violation,omitempty"`
	Case        uint64            `json:"case,omitempty"`
	Inputs      map[string]string `json:"inputs,omitempty"`
	Wall        float64           `json:"wall_s"`
}

func main() {
	prop := flag.String("prop", "", "property")
	dur := flag.Duration("time", 10*time.Second, "budget")
	seed := flag.Uint64("seed", 1, "seed")
	one := flag.Int64("case", -1, "run this case only")
	cur := flag.String("current", "", "directory that tells which cases are running")
	out := flag.String("out", "", "report file")
	workers := flag.Int("workers", runtime.NumCPU(), "goroutines")
	slow := flag.Duration("slow", 60*time.Second, "longest time a case may take")
	maxCases := flag.Int64("max", 0, "stop after this many cases")
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(6 << 30)
	p, ok := properties[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	rep := report{Property: *prop, Seed: *seed, Rule: p.rule}
	start := time.Now()
	if *one >= 0 {
		c, err := runCase(p, uint64(*one))
		for _, d := range c.data {
			fmt.Printf("%s: %s\n", d.k, d.v)
		}
		if err != nil {
			fmt.Println("VIOLATED:", err)
			os.Exit(1)
		}
		fmt.Println("held")
		return
	}
	var (
		mu       sync.Mutex
		distinct = map[uint64]bool{}
		evals    int64
		stop     int32
		wg       sync.WaitGroup
		worst    error
		wc       *ctx
		wcase    uint64
	)
	fail := func(c *ctx, n uint64, err error) {
		mu.Lock()
		defer mu.Unlock()
		size := func(c *ctx) (n int) {
			for _, d := range c.data {
				n += len(d.v)
			}
			return n
		}
		// prefer the smallest witness found shortly after the first one
		if worst == nil || size(c) < size(wc) {
			worst, wc, wcase = err, c, n
		}
	}
	deadline := start.Add(*dur)
	started := make([]int64, *workers) // when the running case began, 0 between cases
	running := make([]uint64, *workers)
	var firstFail int64
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var f *os.File
			if *cur != "" {
				f, _ = os.Create(fmt.Sprintf("%s/%d", *cur, w))
				defer f.Close()
			}
			var buf [8]byte
			for i := uint64(0); ; i++ {
				if i%16 == 0 && (time.Now().After(deadline) || atomic.LoadInt32(&stop) != 0) {
					return
				}
				if ff := atomic.LoadInt64(&firstFail); ff != 0 && time.Now().UnixNano()-ff > int64(2*time.Second) {
					return
				}
				n := mix(*seed*1000003+uint64(w)*7919+i*64) >> 1
				if f != nil {
					binary.LittleEndian.PutUint64(buf[:], n)
					f.WriteAt(buf[:], 0)
				}
				atomic.StoreUint64(&running[w], n)
				atomic.StoreInt64(&started[w], time.Now().UnixNano())
				c, err := runCase(p, n)
				atomic.StoreInt64(&started[w], 0)
				e := atomic.AddInt64(&evals, 1)
				if *maxCases > 0 && e >= *maxCases {
					atomic.StoreInt32(&stop, 1)
				}
				if err != nil {
					fail(c, n, err)
					atomic.CompareAndSwapInt64(&firstFail, 0, time.Now().UnixNano())
				}
				if c.nt {
					s := c.sum()
					mu.Lock()
					if len(distinct) < 3000000 {
						distinct[s] = true
					}
					if len(rep.Samples) < 6 && (i+uint64(w))%97 == 5 {
						txt := ""
						for _, d := range c.data {
							v := d.v
							if len(v) > 200 {
								v = v[:200] + "..."
							}
							txt += d.k + "=" + v + " "
						}
						rep.Samples = append(rep.Samples, txt)
					}
					mu.Unlock()
				}
			}
		}(w)
	}
	finished := make(chan struct{})
	go func() {
		wg.Wait()
		close(finished)
	}()
	hung := false
wait:
	for {
		select {
		case <-finished:
			break wait
		case <-time.After(time.Second):
			for w := range started {
				if t := atomic.LoadInt64(&started[w]); t != 0 && time.Now().UnixNano()-t > int64(*slow) {
					hung = true
					mu.Lock()
					if worst == nil {
						worst, wc, wcase = fmt.Errorf("no result after %v", *slow), newCtx(0), atomic.LoadUint64(&running[w])
					}
					break wait // the report is written with mu held
				}
			}
		}
	}
	if !hung {
		mu.Lock()
	}
	rep.Evaluations = evals
	rep.Distinct = len(distinct)
	rep.Wall = time.Since(start).Seconds()
	if worst != nil {
		rep.Violation, rep.Case = worst.Error(), wcase
		rep.Inputs = map[string]string{}
		for i, d := range wc.data {
			rep.Inputs[fmt.Sprintf("%02d %s", i, d.k)] = d.v
		}
	}
	sort.Strings(rep.Samples)
	js, _ := json.MarshalIndent(rep, "", " ")
	if *out != "" {
		os.WriteFile(*out, js, 0o644)
	} else {
		fmt.Println(string(js))
	}
	if worst != nil {
		os.Exit(1)
	}
}

var _ = errors.New
