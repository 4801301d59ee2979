//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"
	"unicode/utf8"

	"github.com/vultr/govultr"
	"pgregory.net/rapid"
	"verif/vh"
)

var zvProps []*vh.Property

func TestVerif(t *testing.T) {
	if os.Getenv("ZV_ARGS") != "" {
		zvCommandMain()
	}
	vh.Main(t, zvProps)
}

type zvServer struct{ ID, PublicIP, PrivateIP, Location, Tag string }

type zvListCase struct {
	Provider string
	Home     string
	Servers  []zvServer
	Over     bool // overwrite an older, longer file
}

// zvText draws valid text: JSON cannot carry anything else.
func zvText(t *rapid.T, name string) string {
	switch vh.Uniform(t, name+"Kind", 8) {
	case 0:
		return ""
	case 1, 2:
		s := rapid.String().Draw(t, name)
		if !utf8.ValidString(s) {
			return "?"
		}
		return s
	case 3:
		return vh.OneOf(t, name, "\"quoted\"", "back\\slash", "new\nline", "<b>&amp;</b>", "\u2028\u2029", "\x00\x01", "é漢字🙂", "null", "{}", "a,b")
	default:
		return vh.OneOf(t, name, "Tokyo", "Toky", "Tokyo2", "tokyo", "Paris", "New York", "10.0.0.1", "10.0.0.2", "a", "b", "i-01", "i-02", "i-1", "12345", "2", "13")
	}
}

func zvGenList(t *rapid.T) zvListCase {
	c := zvListCase{Provider: vh.OneOf(t, "provider", "vultr", "aws"), Home: vh.OneOf(t, "home", "/home/u", "/root", "/home/with space/ü"), Over: vh.Uniform(t, "over", 2) == 0}
	n := vh.Size(t, "servers", 60)
	for i := 0; i < n; i++ {
		c.Servers = append(c.Servers, zvServer{zvText(t, "id"), zvText(t, "public"), zvText(t, "private"), zvText(t, "location"), zvText(t, "tag")})
	}
	return c
}

func zvLess(a, b Server) bool {
	if a.Location != b.Location {
		return a.Location < b.Location
	}
	return a.ID < b.ID
}

func zvKey(s Server) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func zvList(x *vh.Ctx, c zvListCase) error {
	dir, err := os.MkdirTemp("", "servers")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	old := os.Getenv("HOME")
	os.Setenv("HOME", c.Home)
	defer os.Setenv("HOME", old)
	path := filepath.Join(dir, "servers.json")
	if c.Over {
		long := make([]byte, 50000)
		for i := range long {
			long[i] = 'x'
		}
		os.WriteFile(path, long, 0o644)
	}
	var want []Server
	if c.Provider == "vultr" {
		var l []govultr.Server
		for _, s := range c.Servers {
			l = append(l, govultr.Server{InstanceID: s.ID, MainIP: s.PublicIP, Location: s.Location, Tag: s.Tag})
			want = append(want, Server{ID: s.ID, PublicIP: s.PublicIP, PrivateIP: s.PublicIP, Port: 22, User: "root", KeyPath: c.Home + "/.ssh/vultr", Location: s.Location, Tag: s.Tag, Provider: "vultr"})
		}
		DumpServerInfo(path, l)
	} else {
		var l []AWSServer
		for _, s := range c.Servers {
			l = append(l, AWSServer{ID: s.ID, PublicIP: s.PublicIP, PrivateIP: s.PrivateIP, Region: s.Location, Tag: s.Tag})
			want = append(want, Server{ID: s.ID, PublicIP: s.PublicIP, PrivateIP: s.PrivateIP, Port: 22, User: "ubuntu", KeyPath: c.Home + "/.ssh/pikaaws", Location: s.Location, Tag: s.Tag, Provider: "aws"})
		}
		AWSDumpServerInfo(path, l)
	}
	got := ReadServerInfo(path)
	if len(got) != len(want) {
		return vh.Fail("wrong-list", "%d servers written, %d read", len(want), len(got))
	}
	ordered := true
	for i := 1; i < len(got); i++ {
		if zvLess(got[i], got[i-1]) {
			return vh.Fail("not-sorted", "server %d (%q, %q) follows (%q, %q)", i, got[i].Location, got[i].ID, got[i-1].Location, got[i-1].ID)
		}
		if zvLess(want[i], want[i-1]) {
			ordered = false
		}
	}
	a, b := map[string]int{}, 0
	for _, s := range want {
		a[zvKey(s)]++
	}
	for _, s := range got {
		k := zvKey(s)
		if a[k] == 0 {
			return vh.Fail("wrong-list", "read server %s, which was not written; expected among others %s", k, zvKey(want[b]))
		}
		a[k]--
		b++
	}
	// a second reading, and the ordering on its own
	if again := ReadServerInfo(path); len(again) != len(got) {
		return vh.Fail("wrong-list", "a second reading gives %d servers", len(again))
	}
	sh := append([]Server{}, want...)
	sort.Sort(ServerByLocation(sh))
	for i := range sh {
		if sh[i].Location != got[i].Location || sh[i].ID != got[i].ID {
			return vh.Fail("not-sorted", "sorting gives another order than the file")
		}
	}
	x.Tag(c.Provider)
	x.TagIf(!ordered, "needs-sorting")
	if len(want) > 1 && !ordered {
		x.NonTrivial()
	}
	return nil
}

type zvTopoCase struct {
	Links [][2]int
	Pad   bool
}

func zvTopology(x *vh.Ctx, c zvTopoCase) error {
	dir, err := os.MkdirTemp("", "exp")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "exp.json")
	// the documents gentopo.py makes
	sp, nl := "", ""
	if c.Pad {
		sp, nl = " ", "\n    "
	}
	doc := "{" + nl + "\"Topology\":" + sp + "["
	for i, l := range c.Links {
		if i > 0 {
			doc += "," + sp
		}
		doc += fmt.Sprintf("{%s\"From\":%s%d,%s\"To\":%s%d%s}", nl, sp, l[0], nl, sp, l[1], nl)
	}
	b := []byte(doc + "]" + nl + "}\n")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return vh.Harnessf("%v", err)
	}
	got := ReadExperimentInfo(path)
	if len(got.Topology) != len(c.Links) {
		return vh.Fail("wrong-topology", "%d connections written, %d read", len(c.Links), len(got.Topology))
	}
	for i, l := range c.Links {
		if g := got.Topology[i]; g.From != l[0] || g.To != l[1] {
			return vh.Fail("wrong-topology", "connection %d is %v, read as %v", i, l, g)
		}
	}
	if len(c.Links) > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C32", Rule: "at least two servers not in order, or two connections",
		Assumptions: []string{"texts are valid UTF-8 (JSON carries nothing else)"},
		Subs: []*vh.Sub{
			vh.NewSub("servers", 500, zvGenList, zvList).T(5000),
			vh.NewSub("topology", 300, func(t *rapid.T) zvTopoCase {
				r := vh.NewRng(vh.Seed(t))
				c := zvTopoCase{Pad: vh.Uniform(t, "pad", 2) == 0}
				for i := vh.Size(t, "links", 500); i > 0; i-- {
					c.Links = append(c.Links, [2]int{r.Intn(100), r.Intn(1 << 31)})
				}
				return c
			}, zvTopology).T(3000),
		}})
}
