//go:build go1.23

package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
	"verif/vh"
)

// The exp command, run as a process of its own against SSH servers on the
// loopback network that only write down what they are told to run, and an scp
// that only writes down its arguments.

type zvExpCase struct {
	Servers int
	Links   [][2]int
	Install string
	Ping    bool
	Run     bool
	Down    string
	Extra   []string
	Users   []int
	Delays  []float64 // answers to ping, by link
	Down1   int       // server that cannot be reached, -1: none
	BadCmd  int       // server whose commands fail, -1: none
	BadCopy int       // server to and from which copies fail, -1: none
	NoKill  bool      // nothing to kill anywhere
}

func zvGenExp(t *rapid.T) zvExpCase {
	r := vh.NewRng(vh.Seed(t))
	size := vh.Uniform(t, "servers", 6)
	scale := vh.Uniform(t, "scale", 25)
	if scale == 0 {
		size += 100 + vh.Uniform(t, "more", 20)
	}
	c := zvExpCase{Servers: 1 + size, Down1: -1, BadCmd: -1, BadCopy: -1, NoKill: rapid.Bool().Draw(t, "noKill")}
	switch vh.Uniform(t, "stages", 7) {
	case 0:
		c.Install = vh.OneOf(t, "binary", "node", "../bin/txcode-node", "/tmp/b")
	case 1:
		c.Ping = true
	case 2, 3:
		c.Run = true
	case 4:
		c.Down = vh.OneOf(t, "prefix", "log", "out/r1", "/tmp/x")
	case 5:
		c.Run = true
		c.Install = "node"
	case 6:
		c.Install, c.Down = "node", "log"
		c.Ping = rapid.Bool().Draw(t, "ping")
	}
	c.Extra = vh.OneOf(t, "extra", nil, []string{"-tr", "600"}, []string{"-tr", "10.5", "-c", "0.03", "-warmup", "30s"})
	if n := c.Servers; n > 1 {
		hub := r.Intn(n)
		links := vh.Uniform(t, "links", 2*n+1)
		if scale == 1 {
			links = 20 + vh.Uniform(t, "moreLinks", 150)
		}
		for i := links; i > 0; i-- {
			a, b := r.Intn(n), r.Intn(n)
			if scale <= 1 && i%4 > 0 {
				a = hub // most connections start there
			}
			if a != b {
				c.Links = append(c.Links, [2]int{a, b})
				c.Delays = append(c.Delays, float64(r.Intn(400000))/1000)
			}
		}
	}
	for i := 0; i < c.Servers; i++ {
		c.Users = append(c.Users, r.Intn(2))
	}
	switch vh.Uniform(t, "fault", 8) {
	case 0:
		c.Down1 = r.Intn(c.Servers)
	case 1:
		c.BadCmd = r.Intn(c.Servers)
	case 2:
		c.BadCopy = r.Intn(c.Servers)
	}
	return c
}

var zvKeys struct {
	once sync.Once
	pem  [2][]byte
	pub  [2]string
	host ssh.Signer
	err  error
}

func zvMakeKeys() error {
	zvKeys.once.Do(func() {
		for i := 0; i < 3; i++ {
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if err != nil {
				zvKeys.err = err
				return
			}
			der, err := x509.MarshalECPrivateKey(k)
			if err != nil {
				zvKeys.err = err
				return
			}
			b := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der})
			s, err := ssh.ParsePrivateKey(b)
			if err != nil {
				zvKeys.err = err
				return
			}
			if i == 2 {
				zvKeys.host = s
			} else {
				zvKeys.pem[i], zvKeys.pub[i] = b, string(s.PublicKey().Marshal())
			}
		}
	})
	return zvKeys.err
}

// zvHost is one server; it lets its user in with the right key only.
func zvHost(l net.Listener, user, pub string, answer func(cmd string) (string, int)) {
	conf := &ssh.ServerConfig{PublicKeyCallback: func(m ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
		if m.User() != user || string(k.Marshal()) != pub {
			return nil, fmt.Errorf("no")
		}
		return nil, nil
	}}
	conf.AddHostKey(zvKeys.host)
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			_, chans, reqs, err := ssh.NewServerConn(c, conf)
			if err != nil {
				c.Close()
				return
			}
			go ssh.DiscardRequests(reqs)
			for nc := range chans {
				if nc.ChannelType() != "session" {
					nc.Reject(ssh.UnknownChannelType, "")
					continue
				}
				ch, rs, err := nc.Accept()
				if err != nil {
					continue
				}
				go func() {
					for r := range rs {
						if r.Type != "exec" || len(r.Payload) < 4 {
							r.Reply(false, nil)
							continue
						}
						r.Reply(true, nil)
						out, code := answer(string(r.Payload[4:]))
						ch.Write([]byte(out))
						st := make([]byte, 4)
						binary.BigEndian.PutUint32(st, uint32(code))
						ch.SendRequest("exit-status", false, st)
						ch.Close()
					}
				}()
			}
		}()
	}
}

type zvEvent struct {
	Host int
	Kind string // kill, run, ping, up, down, other
	Text string
}

const zvSep = "\x1f"

func zvExp(x *vh.Ctx, c zvExpCase) error {
	if err := zvMakeKeys(); err != nil {
		return vh.Harnessf("%v", err)
	}
	dir, err := os.MkdirTemp("", "exp")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	// what happens, in order
	logf, err := os.OpenFile(filepath.Join(dir, "events"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer logf.Close()
	fail := ""
	var servers []Server
	for k := range zvKeys.pem {
		os.WriteFile(filepath.Join(dir, "key"+strconv.Itoa(k)), zvKeys.pem[k], 0o600)
	}
	for i := 0; i < c.Servers; i++ {
		ip := fmt.Sprintf("127.0.%d.%d", 1+i%3, 10+i)
		l, err := net.Listen("tcp", ip+":0")
		if err != nil {
			return vh.Harnessf("%v", err)
		}
		defer l.Close()
		k := c.Users[i]
		s := Server{ID: "id" + strconv.Itoa(i), PublicIP: ip, PrivateIP: "127.0.9." + strconv.Itoa(i+1), Port: l.Addr().(*net.TCPAddr).Port, User: []string{"root", "ubuntu"}[k], KeyPath: filepath.Join(dir, "key"+strconv.Itoa(k)), Location: "L" + strconv.Itoa(i%2), Tag: "t", Provider: []string{"vultr", "aws"}[k]}
		servers = append(servers, s)
		if i == c.Down1 {
			l.Close()
			continue
		}
		if i == c.BadCopy {
			fail = ip
		}
		go zvHost(l, s.User, zvKeys.pub[k], func(cmd string) (string, int) {
			logf.WriteString(strings.Join([]string{"ssh", strconv.Itoa(i), strings.ReplaceAll(cmd, "\n", " ")}, zvSep) + "\n")
			if strings.Contains(cmd, "killall") {
				if c.NoKill {
					return "txcode-node: no process found\n", 1
				}
				return "", 0
			}
			if i == c.BadCmd {
				return "", 3
			}
			if strings.Contains(cmd, "ping") {
				for k, l := range c.Links {
					if l[0] == i && strings.Contains(" "+cmd+" ", " "+fmt.Sprintf("127.0.%d.%d", 1+l[1]%3, 10+l[1])+" ") {
						return fmt.Sprintf("%.3f\n", c.Delays[zvFirst(c.Links, k)]), 0
					}
				}
			}
			return "", 0
		})
	}
	bin := filepath.Join(dir, "bin")
	os.Mkdir(bin, 0o755)
	// one write per call, so that lines stay whole
	script := "#!/bin/sh\nl=scp\nfor a in \"$@\"; do l=\"$l" + zvSep + "$a\"; done\nprintf '%s\\n' \"$l\" >> '" + filepath.Join(dir, "events") + "'\n"
	if fail != "" {
		script += "case \"$l\" in *@" + fail + ":*) exit 1;; esac\n"
	}
	if err := os.WriteFile(filepath.Join(bin, "scp"), []byte(script), 0o755); err != nil {
		return vh.Harnessf("%v", err)
	}
	sl, tp := filepath.Join(dir, "servers.json"), filepath.Join(dir, "topo.json")
	b, _ := json.Marshal(servers)
	os.WriteFile(sl, b, 0o644)
	var exp Experiment
	for _, l := range c.Links {
		exp.Topology = append(exp.Topology, Connection{l[0], l[1]})
	}
	b, _ = json.Marshal(exp)
	os.WriteFile(tp, b, 0o644)
	args := []string{"exp", "-l", sl}
	if c.Install != "" {
		args = append(args, "-install", c.Install)
	}
	if c.Ping {
		args = append(args, "-ping", tp)
	}
	if c.Run {
		args = append(args, "-run", tp)
	}
	if c.Down != "" {
		args = append(args, "-dl", c.Down)
	}
	if len(c.Extra) > 0 {
		args = append(args, "--")
		args = append(args, c.Extra...)
	}
	res, err := zvCommand(dir, nil, []string{"PATH=" + bin}, "", args...)
	if err != nil {
		return err
	}
	what := strings.ReplaceAll(strings.Join(args, " "), dir+"/", "")
	if res.Code == -1 {
		return vh.Fail("no-end", "%s does not end: %s", what, res.Out)
	}
	if res.Panic {
		return vh.Fail("crash", "%s: %s", what, res.Out)
	}
	var evs []zvEvent
	b, err = os.ReadFile(filepath.Join(dir, "events"))
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	host := func(at string) (int, string, bool) { // user@ip:path
		a := strings.SplitN(at, ":", 2)
		if len(a) < 2 {
			return 0, "", false
		}
		for i, s := range servers {
			if a[0] == s.User+"@"+s.PublicIP {
				return i, a[1], true
			}
		}
		return 0, "", false
	}
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		w := strings.Split(l, zvSep)
		switch w[0] {
		case "ssh":
			i, _ := strconv.Atoi(w[1])
			e := zvEvent{i, "other", w[2]}
			switch {
			case strings.Contains(w[2], "./txcode-node"):
				e.Kind = "run"
			case strings.Contains(w[2], "killall") && strings.Contains(w[2], "txcode-node"):
				e.Kind = "kill"
			case strings.Contains(w[2], "ping"):
				e.Kind = "ping"
			}
			evs = append(evs, e)
		case "scp":
			key, rest := "", []string{}
			for k := 1; k < len(w); k++ {
				switch w[k] {
				case "-o":
					k++
				case "-i":
					k++
					if k < len(w) {
						key = w[k]
					}
				default:
					rest = append(rest, w[k])
				}
			}
			if len(rest) != 2 {
				return vh.Fail("wrong-copy", "%s: scp %q", what, w[1:])
			}
			e := zvEvent{Kind: "up"}
			i, path, remote := host(rest[1])
			if remote {
				e.Host, e.Text = i, rest[0]+" to "+path
			} else if i, path, remote = host(rest[0]); remote {
				e.Host, e.Kind, e.Text = i, "down", path+" to "+rest[1]
			} else {
				return vh.Fail("wrong-copy", "%s: scp %q concerns none of the servers", what, w[1:])
			}
			if key != servers[e.Host].KeyPath {
				return vh.Fail("wrong-copy", "%s: scp %q uses another key than %s", what, w[1:], servers[e.Host].KeyPath)
			}
			evs = append(evs, e)
		}
	}
	text := ""
	for _, e := range evs {
		text += fmt.Sprintf("%d %s %s\n", e.Host, e.Kind, e.Text)
	}
	if c.Down1 >= 0 {
		x.Tag("unreachable")
		if len(evs) > 0 || res.Code == 0 {
			return vh.Fail("partial", "%s: server %d is not reachable, yet the exit status is %d and this was done:\n%s", what, c.Down1, res.Code, text)
		}
		return nil
	}
	if res.Code != 0 {
		return vh.Fail("wrong-exit", "%s: exit status %d: %s", what, res.Code, res.Out)
	}
	// every server's own history
	port := ""
	stage := map[string]int{"up": 1, "ping": 2, "run": 3, "down": 4}
	last := 0
	for i, s := range servers {
		var got, want []string
		for _, e := range evs {
			if e.Host != i {
				continue
			}
			switch e.Kind {
			case "kill":
				got = append(got, "kill")
			case "up", "down":
				got = append(got, e.Kind+" "+e.Text)
			case "ping":
				ip := ""
				for _, f := range strings.Fields(e.Text) {
					if net.ParseIP(f) != nil {
						ip = f
					}
				}
				got = append(got, "ping "+ip)
			case "run":
				p, d, err := zvRunCommand(e.Text)
				if err != nil {
					return vh.Fail("wrong-run", "%s: server %d is told to run %q: %v", what, i, e.Text, err)
				}
				if port != "" && p != port {
					return vh.Fail("wrong-run", "%s: servers listen at ports %s and %s", what, port, p)
				}
				port = p
				if n, err := strconv.Atoi(p); err != nil || n < 1024 || n > 65535 {
					return vh.Fail("wrong-run", "%s: port %q", what, p)
				}
				got = append(got, d)
			default:
				return vh.Fail("wrong-command", "%s: server %d is told to run %q", what, i, e.Text)
			}
		}
		bad := i == c.BadCmd
		if c.Install != "" {
			want = append(want, "kill", "up "+c.Install+" to txcode-node")
		}
		if c.Ping {
			for _, l := range c.Links {
				if l[0] == i {
					want = append(want, "ping "+servers[l[1]].PublicIP)
					if bad {
						break // the first failure ends it
					}
				}
			}
		}
		if c.Run {
			var peers []string
			for _, l := range c.Links {
				if l[0] == i {
					peers = append(peers, servers[l[1]].PublicIP+":"+port)
				}
			}
			sort.Strings(peers)
			want = append(want, "kill", "run "+strings.Join(peers, ",")+" with "+strings.Join(c.Extra, " "))
		}
		if c.Down != "" {
			want = append(want, "kill", "down log.txt to "+c.Down+"-"+strconv.Itoa(i))
		}
		// the pings of a server may come in any order
		zvSortPings(got)
		zvSortPings(want)
		if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w && !(bad && c.Ping && zvSubset(got, want)) {
			return vh.Fail("wrong-commands", "%s: server %d (%s) was told\n%s\ninstead of\n%s", what, i, s.PublicIP, g, w)
		}
		failedStages := 0
		if i == c.BadCmd && (c.Run || c.Ping && zvHas(want, "ping")) {
			failedStages++
		}
		if i == c.BadCopy && (c.Install != "" || c.Down != "") {
			failedStages++
		}
		if mentioned := regexp.MustCompile(`(?m)^error.* server ` + strconv.Itoa(i) + `\b`).MatchString(res.Out); mentioned != (failedStages > 0) {
			return vh.Fail("wrong-report", "%s: %d failures at server %d: %s", what, failedStages, i, res.Out)
		}
	}
	// one stage is over at every server before the next begins
	for _, e := range evs {
		if st := stage[e.Kind]; st > 0 {
			if st < last {
				return vh.Fail("stages-mixed", "%s: stages overlap:\n%s", what, text)
			}
			last = st
		}
	}
	// the delays that are printed
	if c.Ping {
		var got, want []string
		for _, l := range strings.Split(res.Out, "\n") {
			if m := regexp.MustCompile(`node\[(\d+)\]\.peer\+\+ <--> \{\s*delay = ([\d.]+)ms; \} <--> node\[(\d+)\]\.peer\+\+;`).FindStringSubmatch(l); m != nil {
				got = append(got, m[1]+" "+m[3]+" "+m[2])
			}
		}
		for k, l := range c.Links {
			if l[0] != c.BadCmd {
				v, _ := strconv.ParseFloat(fmt.Sprintf("%.3f", c.Delays[zvFirst(c.Links, k)]), 64)
				want = append(want, fmt.Sprintf("%d %d %.1f", l[0], l[1], v/2))
			}
		}
		if g, w := zvSorted(got), zvSorted(want); g != w {
			return vh.Fail("wrong-delays", "%s: delays %s are printed instead of %s", what, g, w)
		}
		x.Tag("ping")
	}
	x.TagIf(c.Run, "run")
	x.TagIf(c.Install != "", "install")
	x.TagIf(c.Down != "", "download")
	x.TagIf(c.BadCmd >= 0 || c.BadCopy >= 0, "failure")
	if c.Servers > 1 && (len(c.Links) > 0 || !c.Run && !c.Ping) {
		x.NonTrivial()
	}
	return nil
}

// zvFirst is the first link like link k.
func zvFirst(links [][2]int, k int) int {
	for i, l := range links {
		if l == links[k] {
			return i
		}
	}
	return k
}

func zvHas(l []string, prefix string) bool {
	for _, s := range l {
		if strings.HasPrefix(s, prefix) {
			return true
		}
	}
	return false
}

func zvSubset(a, b []string) bool {
	n := map[string]int{}
	for _, s := range b {
		n[s]++
	}
	for _, s := range a {
		if !strings.HasPrefix(s, "ping") && n[s] == 0 {
			return false
		}
		n[s]--
	}
	return true
}

func zvSortPings(l []string) {
	for i := 0; i < len(l); i++ {
		j := i
		for j < len(l) && strings.HasPrefix(l[j], "ping") {
			j++
		}
		if j > i {
			sort.Strings(l[i:j])
			i = j - 1
		}
	}
}

// zvRunCommand reads the command that starts a node.
func zvRunCommand(cmd string) (port, desc string, err error) {
	i := strings.Index(cmd, "./txcode-node")
	f := strings.Fields(cmd[i+len("./txcode-node"):])
	var extra, peers []string
	for k := 0; k < len(f); k++ {
		switch {
		case f[k] == "-p" && k+1 < len(f):
			k++
			peers = append(peers, strings.Split(f[k], ",")...)
		case f[k] == "-l" && k+1 < len(f):
			k++
			if !strings.HasPrefix(f[k], "0.0.0.0:") || port != "" {
				return "", "", fmt.Errorf("listens at %s", f[k])
			}
			port = strings.TrimPrefix(f[k], "0.0.0.0:")
		case strings.HasPrefix(f[k], ">"):
			if rest := strings.Join(f[k:], " "); !regexp.MustCompile(`^> ?log\.txt 2>&1 &'?$`).MatchString(rest) {
				return "", "", fmt.Errorf("output to %s", rest)
			}
			sort.Strings(peers)
			if port == "" {
				return "", "", fmt.Errorf("does not listen")
			}
			return port, "run " + strings.Join(peers, ",") + " with " + strings.Join(extra, " "), nil
		default:
			extra = append(extra, f[k])
		}
	}
	return "", "", fmt.Errorf("output is not kept")
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C37", Rule: "two or more servers, with links if the experiment needs them",
		Assumptions: []string{"topologies only name servers of the list", "servers run what they are told (commands are recorded, not run)"},
		Subs: []*vh.Sub{
			vh.NewSub("experiment", 600, zvGenExp, zvExp).T(3000),
		}})
}
