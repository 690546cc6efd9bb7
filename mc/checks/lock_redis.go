package checks

import (
	"bufio"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	lockredis "github.com/bytedance/dddfirework/lock/redis"
	"github.com/redis/go-redis/v9"

	"verif/mc/explore"
	"verif/mc/world"
)

// rdServer is a redis server; the real client talks to it over pipes, every
// command and every reply is a scheduling point and can be lost with the
// connection.
type rdServer struct {
	w       *world.World
	mu      sync.Mutex
	keys    map[string]rdVal
	scripts map[string]string
	conns   map[*world.Proc][]net.Conn
	closed  bool
	down    bool
}

type rdVal struct {
	v     string
	until time.Time // zero = for ever
}

func newRdServer(w *world.World) *rdServer {
	return &rdServer{w: w, keys: map[string]rdVal{}, scripts: map[string]string{}, conns: map[*world.Proc][]net.Conn{}}
}

// client is a client of process p.
func (r *rdServer) client(p *world.Proc, retries int) *redis.Client {
	return redis.NewClient(&redis.Options{Dialer: r.dial(p), MaxRetries: retries, MinRetryBackoff: -1, MaxRetryBackoff: -1, PoolSize: 4})
}

func (r *rdServer) dial(p *world.Proc) func(ctx context.Context, network, addr string) (net.Conn, error) {
	return func(ctx context.Context, network, addr string) (net.Conn, error) {
		r.mu.Lock()
		defer r.mu.Unlock()
		if p.Dead && !r.closed {
			runtime.Goexit()
		}
		if r.closed || r.down {
			return nil, errors.New("connection refused")
		}
		a, b := net.Pipe()
		r.conns[p] = append(r.conns[p], a, b)
		go r.serve(p, b)
		return a, nil
	}
}

func (r *rdServer) drop(p *world.Proc) {
	r.mu.Lock()
	l := r.conns[p]
	r.conns[p] = nil
	r.mu.Unlock()
	for _, c := range l {
		c.Close()
	}
}

func (r *rdServer) close() {
	r.mu.Lock()
	r.closed = true
	var ps []*world.Proc
	for p := range r.conns {
		ps = append(ps, p)
	}
	r.mu.Unlock()
	for _, p := range ps {
		r.drop(p)
	}
}

func readCommand(b *bufio.Reader) ([]string, error) {
	num := func(c byte) (int, error) {
		s, err := b.ReadString('\n')
		if err != nil {
			return 0, err
		}
		if s[0] != c {
			return 0, fmt.Errorf("protocol: %q", s)
		}
		return strconv.Atoi(strings.TrimSpace(s[1:]))
	}
	n, err := num('*')
	if err != nil {
		return nil, err
	}
	var l []string
	for i := 0; i < n; i++ {
		k, err := num('$')
		if err != nil {
			return nil, err
		}
		buf := make([]byte, k+2)
		if _, err := io.ReadFull(b, buf); err != nil {
			return nil, err
		}
		l = append(l, string(buf[:k]))
	}
	return l, nil
}

func (r *rdServer) serve(p *world.Proc, c net.Conn) {
	defer c.Close()
	b := bufio.NewReader(c)
	for {
		cmd, err := readCommand(b)
		if err != nil {
			return
		}
		name := strings.ToUpper(cmd[0])
		key := ""
		switch name {
		case "HELLO":
			if _, err := c.Write([]byte("-ERR unknown command 'HELLO'\r\n")); err != nil {
				return
			}
			continue
		case "EVALSHA":
			r.mu.Lock()
			src, in := r.scripts[cmd[1]]
			r.mu.Unlock()
			if !in {
				if _, err := c.Write([]byte("-NOSCRIPT No matching script. Please use EVAL.\r\n")); err != nil {
					return
				}
				continue
			}
			cmd[1] = src
			fallthrough
		case "EVAL":
			if len(cmd) > 3 {
				key = cmd[3]
			}
			name = "EVAL"
		default:
			if len(cmd) > 1 {
				key = cmd[1]
			}
		}
		if p.Point(name+" "+key) != nil {
			return
		}
		r.mu.Lock()
		rep := r.exec(name, cmd[1:])
		r.mu.Unlock()
		if r.w.X.Tracing {
			r.w.X.Tracef("    %s: %s %s: %q", p.Name, name, key, rep)
		}
		if p.Point("reply to "+name+" "+key) != nil {
			return
		}
		if _, err := c.Write([]byte(rep)); err != nil {
			return
		}
	}
}

var luaRe = regexp.MustCompile(`^if redis\.call\((.*?)\) == (\S+) then return redis\.call\((.*?)\) else return (-?\d+) end$`)

func (r *rdServer) get(key string) (rdVal, bool) {
	v, in := r.keys[key]
	if in && !v.until.IsZero() && !time.Now().Before(v.until) {
		delete(r.keys, key)
		return rdVal{}, false
	}
	return v, in
}

func (r *rdServer) exec(name string, a []string) string {
	bad := func(f string, l ...interface{}) string {
		r.w.X.Inconclusive("redis: "+f, l...)
		return "-ERR outside the model\r\n"
	}
	num := func(n int64) string { return fmt.Sprintf(":%d\r\n", n) }
	one := func(b bool) string {
		if b {
			return num(1)
		}
		return num(0)
	}
	str := func(s string, ok bool) string {
		if !ok {
			return "$-1\r\n"
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s)
	}
	expire := func(key string, d time.Duration) string {
		v, in := r.get(key)
		if in {
			v.until = time.Now().Add(d)
			r.keys[key] = v
			r.get(key)
		}
		return one(in)
	}
	span := func(s string, unit time.Duration) (time.Duration, bool) {
		n, err := strconv.ParseInt(s, 10, 64)
		return time.Duration(n) * unit, err == nil
	}
	switch {
	case name == "PING":
		return "+PONG\r\n"
	case name == "GET" && len(a) == 1:
		v, in := r.get(a[0])
		return str(v.v, in)
	case name == "EXISTS" && len(a) == 1:
		_, in := r.get(a[0])
		return one(in)
	case name == "DEL" && len(a) == 1:
		_, in := r.get(a[0])
		delete(r.keys, a[0])
		return one(in)
	case name == "SETNX" && len(a) == 2:
		_, in := r.get(a[0])
		if !in {
			r.keys[a[0]] = rdVal{v: a[1]}
		}
		return one(!in)
	case name == "SET" && len(a) >= 2:
		v := rdVal{v: a[1]}
		o, in := r.get(a[0])
		ok := true
		for i := 2; i < len(a); i++ {
			switch f := strings.ToUpper(a[i]); f {
			case "NX":
				ok = ok && !in
			case "XX":
				ok = ok && in
			case "KEEPTTL":
				v.until = o.until
			case "EX", "PX":
				if i+1 == len(a) {
					return "-ERR syntax error\r\n"
				}
				d, num := span(a[i+1], map[string]time.Duration{"EX": time.Second, "PX": time.Millisecond}[f])
				if !num || d <= 0 {
					return "-ERR invalid expire time in 'set' command\r\n"
				}
				v.until = time.Now().Add(d)
				i++
			default:
				return bad("SET option %s", f)
			}
		}
		if !ok {
			return "$-1\r\n"
		}
		r.keys[a[0]] = v
		return "+OK\r\n"
	case (name == "PEXPIRE" || name == "EXPIRE") && len(a) == 2:
		u := time.Second
		if name[0] == 'P' {
			u = time.Millisecond
		}
		d, ok := span(a[1], u)
		if !ok {
			return "-ERR value is not an integer or out of range\r\n"
		}
		return expire(a[0], d)
	case (name == "PTTL" || name == "TTL") && len(a) == 1:
		v, in := r.get(a[0])
		if !in {
			return num(-2)
		}
		if v.until.IsZero() {
			return num(-1)
		}
		d := time.Until(v.until)
		if name == "TTL" {
			return num(int64((d + 500*time.Millisecond) / time.Second))
		}
		return num(int64(d / time.Millisecond))
	case name == "EVAL" && len(a) >= 2:
		n, _ := strconv.Atoi(a[1])
		if len(a) < 2+n {
			return "-ERR Number of keys can't be greater than number of args\r\n"
		}
		m := luaRe.FindStringSubmatch(strings.TrimSpace(a[0]))
		if m == nil {
			return bad("script %s", a[0])
		}
		h := sha1.Sum([]byte(a[0]))
		r.scripts[hex.EncodeToString(h[:])] = a[0]
		val := func(s string) string {
			s = strings.TrimSpace(s)
			for pre, l := range map[string][]string{"KEYS[": a[2 : 2+n], "ARGV[": a[2+n:]} {
				if strings.HasPrefix(s, pre) {
					if i, err := strconv.Atoi(strings.TrimSuffix(s[len(pre):], "]")); err == nil && i >= 1 && i <= len(l) {
						return l[i-1]
					}
				}
			}
			return strings.Trim(s, `"'`)
		}
		call := func(s string) string {
			var l []string
			for _, f := range strings.Split(s, ",") {
				l = append(l, val(f))
			}
			return r.exec(strings.ToUpper(l[0]), l[1:])
		}
		if w := val(m[2]); call(m[1]) == str(w, true) {
			return call(m[3])
		}
		d, _ := strconv.ParseInt(m[4], 10, 64)
		return num(d)
	}
	return bad("%s with %d arguments", name, len(a))
}

// rdHold is a lock a client was given.
type rdHold struct {
	c         *rdClient
	key       string
	kl        interface{}
	t0, t1    time.Time // the Lock call
	unlocking bool
	unlocked  bool
}

// rdSpan is a time during which a client may have held a key.
type rdSpan struct {
	c        *rdClient
	key      string
	from, to time.Time
}

type rdOp struct {
	op   string // lock, unlock, sleep
	key  string
	d    time.Duration
	ctx  string // lock: "", cancel, deadline (after d)
	nth  int    // unlock: from the end
	free bool   // unlock: with the context of the caller cancelled
}

type rdClient struct {
	s     *rdSys
	p     *world.Proc
	lock  *lockredis.RedisLock
	prog  []rdOp
	holds []*rdHold
	res   []string
}

type rdSys struct {
	w       *world.World
	x       *explore.X
	mu      sync.Mutex
	srv     *rdServer
	ttl     time.Duration
	clients []*rdClient
	spans   []*rdSpan
	bad     bool
}

func (s *rdSys) fail(sig, f string, a ...interface{}) {
	if !s.bad {
		s.w.Fail(sig, f, a...)
	}
	s.bad = true
}

const rdTick = 2 * time.Millisecond

func (c *rdClient) doLock(o rdOp) *rdHold {
	s := c.s
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	switch o.ctx {
	case "cancel":
		t := time.AfterFunc(o.d, cancel)
		defer t.Stop()
	case "deadline":
		var stop context.CancelFunc
		ctx, stop = context.WithTimeout(ctx, o.d)
		defer stop()
	}
	start := time.Now()
	s.mu.Lock()
	faults, held := s.w.Faults(), s.w.Held()
	sp := &rdSpan{c: c, key: o.key, from: start, to: start.Add(time.Hour)}
	s.spans = append(s.spans, sp)
	s.mu.Unlock()
	kl, err := c.lock.Lock(ctx, o.key)
	if c.p.Dead {
		runtime.Goexit()
	}
	now := time.Now()
	s.mu.Lock()
	defer s.mu.Unlock()
	calm := s.w.Faults() == faults && !s.srv.down
	stall := s.w.Held() - held
	took := now.Sub(start)
	if err == nil {
		c.res = append(c.res, "L")
		if kl == nil {
			s.fail("result", "Lock(%s) succeeded with nothing to unlock", o.key)
		}
		sp.to = now.Add(s.ttl)
		h := &rdHold{c: c, key: o.key, kl: kl, t0: start, t1: now}
		for _, d := range s.clients {
			for _, e := range d.holds {
				if e.key == o.key && !e.unlocking && now.Before(e.t0.Add(s.ttl).Add(-rdTick)) {
					s.fail("two-holders", "%s acquired %s while %s holds it for another %s", c.p.Name, o.key, d.p.Name, e.t0.Add(s.ttl).Sub(now))
				}
			}
		}
		if s.srv.down {
			s.fail("made-up", "%s acquired %s without a server", c.p.Name, o.key)
		}
		c.holds = append(c.holds, h)
		return h
	}
	// what it may still have set in vain
	sp.to = now.Add(s.ttl)
	if calm {
		sp.to = start
	}
	locked := errors.Is(err, ddd.ErrEntityLocked)
	if locked {
		c.res = append(c.res, "l")
	} else {
		c.res = append(c.res, "E")
	}
	if !calm {
		return nil
	}
	limit := 3 * time.Second
	if s.ttl < limit {
		limit = s.ttl
	}
	switch {
	case o.ctx != "" && took >= o.d-rdTick:
		want := map[string]error{"cancel": context.Canceled, "deadline": context.DeadlineExceeded}[o.ctx]
		if !errors.Is(err, want) && !locked {
			s.fail("context", "Lock(%s) returned %v after its context ended", o.key, err)
		}
		if took > o.d+stall+150*time.Millisecond {
			s.fail("context", "Lock(%s) returned %s after its context ended", o.key, took-o.d)
		}
		return nil
	case !locked:
		s.fail("error", "%s: Lock(%s) failed without any failure: %v", c.p.Name, o.key, err)
	case took < limit-150*time.Millisecond:
		s.fail("gave-up", "%s: Lock(%s) gave up after %s", c.p.Name, o.key, took)
	case took > limit+stall+300*time.Millisecond:
		s.fail("too-long", "%s: Lock(%s) failed after %s only", c.p.Name, o.key, took)
	}
	from := now.Add(-150*time.Millisecond - stall)
	for _, e := range s.spans {
		if e != sp && e.key == o.key && e.to.After(from) {
			return nil
		}
	}
	s.fail("free-refused", "%s could not acquire %s although nobody held it", c.p.Name, o.key)
	return nil
}

func (c *rdClient) doUnlock(h *rdHold, free bool) {
	s := c.s
	if h == nil {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if free {
		cancel()
	}
	start := time.Now()
	s.mu.Lock()
	h.unlocking = true
	done := h.unlocked
	faults := s.w.Faults()
	s.mu.Unlock()
	err := c.lock.UnLock(ctx, h.kl)
	if c.p.Dead {
		runtime.Goexit()
	}
	now := time.Now()
	s.mu.Lock()
	defer s.mu.Unlock()
	calm := s.w.Faults() == faults && !s.srv.down && !free
	if err != nil {
		c.res = append(c.res, "u")
		if calm && !done && now.Before(h.t0.Add(s.ttl).Add(-rdTick)) {
			s.fail("unlock-failed", "%s: unlocking its own %s failed: %v", c.p.Name, h.key, err)
		}
		return
	}
	c.res = append(c.res, "U")
	switch {
	case done:
		s.fail("stale-unlock", "%s: unlocking %s a second time succeeded", c.p.Name, h.key)
	case start.After(h.t1.Add(s.ttl).Add(rdTick)):
		s.fail("stale-unlock", "%s: unlocking %s succeeded %s after its lease had ended", c.p.Name, h.key, start.Sub(h.t1.Add(s.ttl)))
	case s.srv.down:
		s.fail("made-up", "%s: unlocking %s succeeded without a server", c.p.Name, h.key)
	}
	h.unlocked = true
	for _, e := range s.spans {
		if e.c == c && e.key == h.key && e.from.Equal(h.t0) && e.to.After(now) {
			e.to = now
		}
	}
}

func (c *rdClient) do() {
	var locks []*rdHold
	for _, o := range c.prog {
		switch o.op {
		case "sleep":
			time.Sleep(o.d)
		case "lock":
			locks = append(locks, c.doLock(o))
		case "unlock":
			if n := len(locks) - 1 - o.nth; n >= 0 {
				c.doUnlock(locks[n], o.free)
			}
		case "down":
			c.s.mu.Lock()
			c.s.srv.down = true
			c.s.mu.Unlock()
			for _, d := range c.s.clients {
				c.s.srv.drop(d.p)
			}
		}
	}
}

type rdSpec struct {
	ttls    []time.Duration // leases to enumerate
	of      func(ttl time.Duration) [][][]rdOp
	progs   [][][]rdOp
	ttl     time.Duration
	retries int  // of the redis client
	shared  bool // the clients are goroutines with one lock object
	to      time.Duration
	rounds  time.Duration // longer programs
}

func scnLockRedis(sp rdSpec, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		cfg := cfg
		cfg.FaultFilter = func(*world.Proc, string) bool { return true }
		world.Run(x, cfg, func(w *world.World) {
			sp := sp
			if sp.ttls != nil {
				sp.ttl = sp.ttls[x.Pick("lease", len(sp.ttls))]
				sp.progs = sp.of(sp.ttl)
			}
			s := &rdSys{w: w, x: x, ttl: sp.ttl}
			s.srv = newRdServer(w)
			defer s.srv.close()
			for i, alts := range sp.progs {
				c := &rdClient{s: s, p: w.NewProc(fmt.Sprintf("C%d", i+1)), prog: alts[x.Pick("program", len(alts))]}
				c.p.OnRestart = func(*world.Proc) {}
				c.p.OnCrash = func() {
					s.srv.drop(c.p)
					s.mu.Lock()
					defer s.mu.Unlock()
					for _, e := range s.spans {
						if e.c == c && e.to.After(time.Now().Add(s.ttl)) {
							e.to = time.Now().Add(s.ttl)
						}
					}
				}
				retries := sp.retries
				if retries == 0 {
					retries = -1
				}
				if sp.shared && i > 0 {
					c.lock = s.clients[0].lock
					s.clients = append(s.clients, c)
					continue
				}
				c.lock = lockredis.NewRedisLock(s.srv.client(c.p, retries), s.ttl)
				s.clients = append(s.clients, c)
			}
			to := sp.to
			if to == 0 {
				to = 8 * time.Second
			}
			w.Window(0, to)
			for i, c := range s.clients {
				c.p.Go("client", func() {
					if sp.shared { // their connections cannot be told apart: keep them off the same instants
						time.Sleep(time.Duration(7*i) * time.Millisecond)
					}
					c.do()
				})
			}
			w.Loop(40*time.Second+4*sp.ttl+sp.rounds, func() bool { return w.Tasks() == 0 })
			if w.Tasks() > 0 && w.Crashes() == 0 {
				s.fail("stuck", "a client did not finish")
			}
			for _, p := range w.Panics() {
				s.fail("panic", "%s", p)
			}
			var l []string
			for _, c := range s.clients {
				l = append(l, strings.Join(c.res, ""))
			}
			x.StepStr(strings.Join(l, ","))
			x.Outcome("%s", strings.Join(l, ","))
		})
	}
}

func init() {
	sec, ms := time.Second, time.Millisecond
	lock := func(k string) rdOp { return rdOp{op: "lock", key: k} }
	sleep := func(d time.Duration) rdOp { return rdOp{op: "sleep", d: d} }
	unlock := rdOp{op: "unlock"}
	short := []rdOp{lock("k"), sleep(50 * ms), unlock}
	short2 := []rdOp{lock("k"), unlock, lock("k"), unlock}
	long := []rdOp{lock("k"), sleep(1700 * ms), unlock}
	lost := []rdOp{lock("k"), sleep(2500 * ms), unlock}
	twice := []rdOp{lock("k"), unlock, unlock}
	both := []rdOp{lock("k"), lock("l"), {op: "unlock", nth: 1}, unlock}
	other := []rdOp{lock("l"), sleep(50 * ms), unlock}
	later := []rdOp{sleep(600 * ms), lock("k"), sleep(1500 * ms), unlock}
	late := []rdOp{sleep(2700 * ms), lock("k"), sleep(300 * ms), unlock}
	self := []rdOp{lock("k"), lock("k"), {op: "unlock", nth: 1}, unlock}
	impatient := []rdOp{sleep(100 * ms), {op: "lock", key: "k", ctx: "cancel", d: 530 * ms}, unlock}
	limited := []rdOp{sleep(100 * ms), {op: "lock", key: "k", ctx: "deadline", d: 750 * ms}, unlock}
	freed := []rdOp{lock("k"), sleep(50 * ms), {op: "unlock", free: true}}
	outage := []rdOp{lock("k"), {op: "down"}, unlock, lock("k"), unlock, lock("l")}
	pre := world.Config{Preempt: true, Holds: []time.Duration{1300 * ms}, MaxSteps: 20000}
	alike := []string{"k", "K", "k ", "k1", "", "*", "k:1", "{k}", "k\r\n", "ключ", strings.Repeat("k", 70), strings.Repeat("k", 300), strings.Repeat("k", 299) + "j"}
	var p1, p2 [][]rdOp
	for _, k := range alike {
		p1 = append(p1, []rdOp{lock(k), sleep(4 * sec), unlock, lock(k), unlock}) // longer than anybody waits
		p2 = append(p2, []rdOp{sleep(100 * ms), lock(k), sleep(1 * sec), unlock})
	}
	leases := func(ttl time.Duration) [][][]rdOp {
		var q [][]rdOp
		for _, d := range []time.Duration{ttl / 2, ttl - 500*ms, ttl + 5*ms, ttl + ttl/2} {
			q = append(q, []rdOp{sleep(d), lock("k"), sleep(300 * ms), unlock})
		}
		return [][][]rdOp{{{lock("k"), sleep(2*ttl + sec), unlock}, {lock("k"), sleep(ttl - 100*ms), unlock, lock("k"), unlock}, {lock("k"), sleep(ttl / 3), unlock, sleep(ttl / 6), lock("k"), sleep(ttl), unlock}}, q}
	}
	rounds := func(n int, d time.Duration, keys ...string) (l []rdOp) {
		for i := 0; i < n; i++ {
			l = append(l, lock(keys[i%len(keys)]), sleep(d), unlock)
		}
		return
	}
	faults := world.Config{Preempt: true, Faults: true, MaxSteps: 20000}
	crash := world.Config{Preempt: true, Crash: true, RestartAfter: time.Hour, MaxSteps: 20000}
	add(&explore.Property{
		ID: "C24", Title: "redis lock",
		Rule:        "programs of two or three clients over the real redis client and a model server; every order of their commands, stalls of 1.3 s, lost commands, lost replies and crashes within the deviation bound",
		Assumptions: []string{"the redis server implements SET NX EX/PX, GET, DEL and the client's scripts atomically and keeps exact time"},
		Scenarios: []*explore.Scenario{
			{Name: "redis-2", Doc: "two clients", Run: scnLockRedis(rdSpec{ttl: 2050 * ms, progs: [][][]rdOp{{short, short2, long, lost, both}, {short, short2, twice, later, other, both}}}, pre), Quick: 3, Thorough: 4},
			{Name: "redis-3", Doc: "three clients", Run: scnLockRedis(rdSpec{ttl: 2050 * ms, progs: [][][]rdOp{{long, lost}, {later, short2}, {late, short, other}}}, pre), Quick: 2, Thorough: 3},
			{Name: "redis-shared", Doc: "goroutines with the same lock object", Run: scnLockRedis(rdSpec{ttl: 2050 * ms, shared: true, progs: [][][]rdOp{{lost, short2}, {later, both}, {late, short, twice}}}, pre), Quick: 2, Thorough: 3},
			{Name: "redis-lease", Doc: "a long lease: waiting is limited", Run: scnLockRedis(rdSpec{ttl: 5 * sec, progs: [][][]rdOp{{short, {lock("k"), sleep(3500 * ms), unlock}, {lock("k"), sleep(6 * sec), unlock}}, {short, twice, {lock("k"), unlock, lock("k"), unlock, lock("l"), unlock}}}}, pre), Quick: 2, Thorough: 2},
			{Name: "redis-short", Doc: "a lease below a second", Run: scnLockRedis(rdSpec{ttl: 1470 * ms, progs: [][][]rdOp{{short, self, lost, long}, {short2, later, self}, {other, self}}}, pre), Quick: 1, Thorough: 2},
			{Name: "redis-keys", Doc: "every pair of keys that are alike", Run: scnLockRedis(rdSpec{ttl: 5 * sec, progs: [][][]rdOp{p1, p2}}, world.Config{MaxSteps: 20000})},
			{Name: "redis-leases", Doc: "leases of a second to a day, contenders before and after the expiry", Run: scnLockRedis(rdSpec{ttls: []time.Duration{sec, 1999 * ms, 30 * sec, time.Hour, 24 * time.Hour}, of: leases, to: 100 * time.Hour}, world.Config{Preempt: true, MaxSteps: 20000}), Quick: 1, Thorough: 2},
			{Name: "redis-rounds", Doc: "250 acquisitions by each of two clients", Run: scnLockRedis(rdSpec{ttl: 5 * sec, rounds: 5 * time.Minute, to: 10 * time.Minute, progs: [][][]rdOp{{rounds(250, 3*ms, "k"), rounds(250, 20*ms, "k", "l", "m")}, {rounds(250, 3*ms, "l"), rounds(250, 7*ms, "l", "k")}}}, world.Config{MaxSteps: 100000})},
			{Name: "redis-context", Doc: "callers that stop waiting", Run: scnLockRedis(rdSpec{ttl: 2050 * ms, progs: [][][]rdOp{{long, short, freed}, {impatient, limited, later}}}, pre), Quick: 3, Thorough: 4},
			{Name: "redis-faults", Doc: "lost commands and replies", Run: scnLockRedis(rdSpec{ttl: 2050 * ms, progs: [][][]rdOp{{short, short2, long}, {short2, later, both}}}, faults), Quick: 3, Thorough: 4},
			{Name: "redis-faults-retry", Doc: "the same with a client that repeats commands", Run: scnLockRedis(rdSpec{ttl: 2050 * ms, retries: 1, progs: [][][]rdOp{{short, long}, {short2, later, both}}}, faults), Quick: 2, Thorough: 3},
			{Name: "redis-down", Doc: "the server goes away", Run: scnLockRedis(rdSpec{ttl: 2050 * ms, retries: 1, progs: [][][]rdOp{{outage}, {short, later}}}, pre), Quick: 2, Thorough: 3},
			{Name: "redis-crash", Doc: "clients crash", Run: scnLockRedis(rdSpec{ttl: 2050 * ms, progs: [][][]rdOp{{short, long}, {short2, later}, {late, short}}}, crash), Quick: 2, Thorough: 3},
		},
	})
}
