package zzdemo

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"
)

// Redis is a tiny redis server with what the lock needs.
type Redis struct {
	mu   sync.Mutex
	vals map[string]string
	exp  map[string]time.Time
}

func NewRedis() (*Redis, *redis.Client) {
	r := &Redis{vals: map[string]string{}, exp: map[string]time.Time{}}
	return r, r.Client()
}

func (r *Redis) Client() *redis.Client {
	return redis.NewClient(&redis.Options{Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		go r.serve(b)
		return a, nil
	}})
}

func (r *Redis) Has(key string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.has(key)
}

func (r *Redis) has(key string) bool {
	if _, in := r.vals[key]; in && time.Now().After(r.exp[key]) {
		delete(r.vals, key)
	}
	_, in := r.vals[key]
	return in
}

func (r *Redis) exec(a []string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch strings.ToLower(a[0]) {
	case "set":
		nx, ttl := false, time.Hour
		for i := 3; i < len(a); i++ {
			switch strings.ToLower(a[i]) {
			case "nx":
				nx = true
			case "ex", "px":
				n, _ := strconv.Atoi(a[i+1])
				ttl = time.Duration(n) * time.Millisecond
				if strings.ToLower(a[i]) == "ex" {
					ttl = time.Duration(n) * time.Second
				}
				i++
			}
		}
		if nx && r.has(a[1]) {
			return "$-1\r\n"
		}
		r.vals[a[1]], r.exp[a[1]] = a[2], time.Now().Add(ttl)
		return "+OK\r\n"
	case "get":
		if !r.has(a[1]) {
			return "$-1\r\n"
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(r.vals[a[1]]), r.vals[a[1]])
	case "del":
		if !r.has(a[1]) {
			return ":0\r\n"
		}
		delete(r.vals, a[1])
		return ":1\r\n"
	case "evalsha":
		return "-NOSCRIPT No matching script\r\n"
	case "eval":
		key, val := a[3], a[4]
		same := r.has(key) && r.vals[key] == val
		switch {
		case !same && strings.Contains(a[1], "pttl"):
			return ":-3\r\n"
		case !same:
			return ":0\r\n"
		case strings.Contains(a[1], "pttl"):
			return fmt.Sprintf(":%d\r\n", time.Until(r.exp[key])/time.Millisecond)
		case strings.Contains(a[1], "pexpire"):
			n, _ := strconv.Atoi(a[5])
			r.exp[key] = time.Now().Add(time.Duration(n) * time.Millisecond)
		default:
			delete(r.vals, key)
		}
		return ":1\r\n"
	}
	return "-ERR unknown command\r\n"
}

func (r *Redis) serve(c net.Conn) {
	defer c.Close()
	b := bufio.NewReader(c)
	num := func() int {
		s, err := b.ReadString('\n')
		if err != nil {
			return -1
		}
		n, _ := strconv.Atoi(strings.TrimSpace(s[1:]))
		return n
	}
	for {
		n := num()
		if n < 0 {
			return
		}
		var a []string
		for i := 0; i < n; i++ {
			buf := make([]byte, num()+2)
			if _, err := io.ReadFull(b, buf); err != nil {
				return
			}
			a = append(a, string(buf[:len(buf)-2]))
		}
		if _, err := io.WriteString(c, r.exec(a)); err != nil {
			return
		}
	}
}
