// Package kit holds the property-test runner, generators and reference models.
package kit

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// environment handed over by check.py
var (
	envSeed     = envU64("KIT_SEED", 1)
	envShard    = envU64("KIT_SHARD", 0)
	envScale    = envF("KIT_SCALE", 1)
	envDeadline = time.Duration(envF("KIT_DEADLINE", 30) * float64(time.Second))
	envThorough = os.Getenv("KIT_TIER") == "thorough"
	envOut      = os.Getenv("KIT_OUT")
	envKnown    = os.Getenv("KIT_KNOWN")
	envShrink   = envS("KIT_SHRINK", "10s")
	start       = time.Now()
)

func envU64(k string, d uint64) uint64 {
	if v, err := strconv.ParseUint(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func envF(k string, d float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(k), 64); err == nil {
		return v
	}
	return d
}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return envThorough }

// Seed and Shard of the run.
func Seed() uint64  { return envSeed }
func Shard() uint64 { return envShard }

type cov struct {
	mu      sync.Mutex
	Evals   int                 `json:"evals"`
	Hashes  map[uint64]struct{} `json:"-"`
	HashHex []string            `json:"hashes"`
	Samples []string            `json:"samples"`
	Labels  map[string]int      `json:"labels"`
	Known   []string            `json:"known"`
	failed  bool
}

var theCov = &cov{Hashes: map[uint64]struct{}{}, Labels: map[string]int{}}

// Case records the coverage of a single generated case.
type Case struct {
	test    string
	key     uint64
	nontriv bool
	sample  string
	labels  []string
}

// NonTrivial marks the case as non-trivial; the parts identify it.
func (c *Case) NonTrivial(parts ...any) {
	h := fnv.New64a()
	h.Write([]byte(c.test))
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "|%v", v)
		}
	}
	c.key ^= h.Sum64()
	c.nontriv = true
}

// Label counts a class of cases.
func (c *Case) Label(s string) { c.labels = append(c.labels, s) }

// Sample gives the written form of the case (only a few are kept).
func (c *Case) Sample(format string, args ...any) {
	theCov.mu.Lock()
	n := len(theCov.Samples)
	theCov.mu.Unlock()
	if n >= 12 || c.sample != "" {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	c.sample = c.test + ": " + s
}

// Check runs the property with n cases (scaled by tier) in batches with fixed seeds; thorough repeats until the deadline.
func Check(t *testing.T, n int, fn func(t *rapid.T, c *Case)) {
	t.Helper()
	name := t.Name()
	body := func(rt *rapid.T) {
		c := &Case{test: name}
		watch(name)
		defer unwatch()
		fn(rt, c)
		theCov.mu.Lock()
		defer theCov.mu.Unlock()
		if theCov.failed {
			return
		}
		theCov.Evals++
		if c.nontriv {
			theCov.Hashes[c.key] = struct{}{}
		}
		for _, l := range c.labels {
			theCov.Labels[l]++
		}
		if c.sample != "" && len(theCov.Samples) < 12 {
			theCov.Samples = append(theCov.Samples, c.sample)
		}
	}
	t.Cleanup(func() {
		if t.Failed() {
			theCov.mu.Lock()
			theCov.failed = true
			theCov.mu.Unlock()
		}
	})
	if f := flag.Lookup("rapid.failfile"); f != nil && f.Value.String() != "" {
		rapid.Check(t, body)
		return
	}
	set("rapid.shrinktime", envShrink)
	n = int(float64(n) * envScale)
	if n < 1 {
		n = 1
	}
	batch := (n + 9) / 10
	begin := time.Now()
	budget := envDeadline
	for i, done := 0, 0; ; i++ {
		if !envThorough && done >= n {
			break
		}
		if i > 0 && time.Since(begin) > budget {
			break
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%d/%s/%d", envSeed, envShard, name, i)
		s := h.Sum64()
		if s == 0 {
			s = 1
		}
		set("rapid.seed", strconv.FormatUint(s, 10))
		set("rapid.checks", strconv.Itoa(batch))
		rapid.Check(t, body)
		if t.Failed() {
			break
		}
		done += batch
	}
}

// ---- a case that does not end

var dog struct {
	sync.Mutex
	once sync.Once
	name string
	at   time.Time
	cpu  time.Duration
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}

	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watch starts the watchdog for a case: cases take milliseconds, so one that needs minutes of processor time
// (or stands still for longer) never ends.
func watch(name string) {
	dog.once.Do(func() {
		go func() {
			for {
				time.Sleep(5 * time.Second)
				dog.Lock()
				n, at, cpu := dog.name, dog.at, dog.cpu
				dog.Unlock()
				if n != "" && (cpuTime()-cpu > 150*time.Second || time.Since(at) > 300*time.Second) {
					buf := make([]byte, 1<<16)
					fmt.Printf("%s\n", buf[:runtime.Stack(buf, true)])
					panic("[violation] " + n + ": a case does not end")
				}
			}
		}()
	})
	dog.Lock()
	dog.name, dog.at, dog.cpu = name, time.Now(), cpuTime()
	dog.Unlock()
}

func unwatch() {
	dog.Lock()
	dog.name = ""
	dog.Unlock()
}

func envS(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}

	return def
}

func set(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

// Once runs a fixed (non-generated) confirmation, counted as one evaluation.
func Once(t *testing.T, fn func(c *Case)) {
	t.Helper()
	c := &Case{test: t.Name()}
	fn(c)
	theCov.mu.Lock()
	defer theCov.mu.Unlock()
	theCov.Evals++
	if c.nontriv {
		theCov.Hashes[c.key] = struct{}{}
	}
}

// IsKnown tells whether the finding key is listed in /verif/known-findings for the property.
// If it is, the finding is reported as reproduced in this run.
func IsKnown(property, key string) bool {
	data, err := os.ReadFile(envKnown)
	if err != nil {
		return false
	}
	for _, line := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(line, "finding: property="+property+" key="+key+" ") {
			return true
		}
	}
	return false
}

// Reproduced records that a listed finding was seen.
func Reproduced(key string) {
	theCov.mu.Lock()
	defer theCov.mu.Unlock()
	for _, k := range theCov.Known {
		if k == key {
			return
		}
	}
	theCov.Known = append(theCov.Known, key)
}

// Main is the TestMain of every test package.
func Main(m *testing.M) {
	flag.Parse()
	rc := m.Run()
	if envOut != "" {
		theCov.mu.Lock()
		for h := range theCov.Hashes {
			theCov.HashHex = append(theCov.HashHex, strconv.FormatUint(h, 36))
		}
		var b bytes.Buffer
		_ = json.NewEncoder(&b).Encode(theCov)
		_ = os.WriteFile(envOut, b.Bytes(), 0o644)
		theCov.mu.Unlock()
	}
	os.Exit(rc)
}
