//go:build go1.23

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/vh"
)

// The cluster command, run as a process of its own whose HTTP client ends in
// a model of the two clouds: nothing leaves the process.

type zvVM struct {
	ID, IP, Private, Location, Tag, Status, State string
	Region                                        string // AWS
	OtherKey                                      bool   // AWS: the tag is under another key
	Code                                          int    // AWS: state
}

type zvNamed struct{ ID, Name string }

type zvPlan struct {
	ID      int
	Price   string
	Regions []int
}

type zvAWSRegion struct {
	Name   string
	OptIn  string
	AMI    string
	Key    string // key pair in place, "" if none
	Group  string // security group in place, "" if none
	Broken string // action that is refused here
}

type zvCloud struct {
	VMs     []zvVM
	Regions []zvNamed
	Plans   []zvPlan
	Keys    []zvNamed
	OSes    []zvNamed
	Scripts []zvNamed
	AWS     []zvAWSRegion
	Page    int    // AWS: instances per page
	Gaps    bool   // AWS: an empty page before every other
	NoTable bool   // AWS: the list of images cannot be fetched
	Line    int    // AWS: length of an irrelevant line in the list of images
	FailAt  int    // the n-th request (from 1) fails
	FailHow string // refuse (for good), once (an outage that a retry survives)
}

type zvReq struct {
	Method, Host, Path, Key string
	Query, Form             url.Values
	Failed                  bool
}

// ---------------------------------------------------------------- in the child

type zvFakeNet struct {
	mu    sync.Mutex
	w     zvCloud
	log   io.Writer
	n     int
	next  int
	fails map[string]bool
}

func zvAnswer(r *http.Request, code int, typ, body string) *http.Response {
	return &http.Response{StatusCode: code, Status: strconv.Itoa(code) + " " + http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{typ}}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: r}
}

func (f *zvFakeNet) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	form, _ := url.ParseQuery(string(body))
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	q := zvReq{Method: r.Method, Host: r.URL.Host, Path: r.URL.Path, Key: r.Header.Get("API-key"), Query: r.URL.Query(), Form: form}
	id := q.Host + q.Path + q.Query.Encode() + form.Encode()
	how := ""
	if f.fails[id] || f.n == f.w.FailAt && f.w.FailHow != "" {
		how = f.w.FailHow
		if how == "refuse" {
			f.fails[id] = true
		}
	}
	q.Failed = how != ""
	b, _ := json.Marshal(q)
	f.log.Write(append(b, '\n'))
	switch {
	case q.Host == "api.vultr.com":
		if how == "once" {
			return zvAnswer(r, 500, "text/plain", "internal error"), nil
		} else if how != "" {
			return zvAnswer(r, 412, "text/plain", "request failed"), nil
		}
		return f.vultr(r, q), nil
	case strings.HasSuffix(q.Host, ".amazonaws.com") && strings.HasPrefix(q.Host, "ec2."):
		if how == "once" {
			return zvAnswer(r, 503, "text/xml", "<Response><Errors><Error><Code>Unavailable</Code><Message>try again</Message></Error></Errors></Response>"), nil
		} else if how != "" {
			return zvRefuse(r), nil
		}
		return f.ec2(r, q), nil
	case q.Host == "cloud-images.ubuntu.com":
		if how != "" || f.w.NoTable {
			return nil, errors.New("connection refused")
		}
		return zvAnswer(r, 200, "text/plain", f.images()), nil
	}
	return nil, errors.New("no such host: " + q.Host)
}

func zvRefuse(r *http.Request) *http.Response {
	return zvAnswer(r, 400, "text/xml", "<Response><Errors><Error><Code>UnauthorizedOperation</Code><Message>no</Message></Error></Errors><RequestID>1</RequestID></Response>")
}

func zvJSONMap(m map[string]any) string {
	if len(m) == 0 {
		return "[]"
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func (f *zvFakeNet) vultr(r *http.Request, q zvReq) *http.Response {
	ok := func(m map[string]any) *http.Response { return zvAnswer(r, 200, "application/json", zvJSONMap(m)) }
	m := map[string]any{}
	if q.Method == "GET" {
		switch q.Path {
		case "/v1/server/list":
			for _, s := range f.w.VMs {
				if v, there := q.Query["tag"]; there && v[0] != s.Tag {
					continue
				}
				if v, there := q.Query["SUBID"]; there && v[0] != s.ID {
					continue
				}
				m[s.ID] = map[string]any{"SUBID": s.ID, "main_ip": s.IP, "location": s.Location, "tag": s.Tag, "status": s.Status, "server_state": s.State, "label": "l" + s.ID, "internal_ip": "", "DCID": "7"}
			}
			return ok(m)
		case "/v1/plans/list":
			for _, p := range f.w.Plans {
				rs := p.Regions
				if rs == nil {
					rs = []int{}
				}
				m[strconv.Itoa(p.ID)] = map[string]any{"VPSPLANID": strconv.Itoa(p.ID), "vcpu_count": "1", "name": "plan", "price_per_month": p.Price, "available_locations": rs}
			}
			return ok(m)
		case "/v1/regions/list":
			for _, n := range f.w.Regions {
				m[n.ID] = map[string]any{"DCID": n.ID, "name": n.Name, "country": "C"}
			}
			return ok(m)
		case "/v1/sshkey/list":
			for _, n := range f.w.Keys {
				m[n.ID] = map[string]any{"SSHKEYID": n.ID, "name": n.Name}
			}
			return ok(m)
		case "/v1/os/list":
			for _, n := range f.w.OSes {
				i, _ := strconv.Atoi(n.ID)
				m[n.ID] = map[string]any{"OSID": i, "name": n.Name, "arch": "x64", "family": "f", "windows": false}
			}
			return ok(m)
		case "/v1/startupscript/list":
			for _, n := range f.w.Scripts {
				m[n.ID] = map[string]any{"SCRIPTID": n.ID, "name": n.Name, "type": "boot", "script": "#!"}
			}
			return ok(m)
		}
	} else if q.Method == "POST" {
		switch q.Path {
		case "/v1/server/destroy", "/v1/server/reboot":
			for i, s := range f.w.VMs {
				if s.ID == q.Form.Get("SUBID") {
					if q.Path == "/v1/server/destroy" {
						f.w.VMs = append(f.w.VMs[:i:i], f.w.VMs[i+1:]...)
					}
					return zvAnswer(r, 200, "application/json", "")
				}
			}
			return zvAnswer(r, 412, "text/plain", "no such server")
		case "/v1/server/create":
			f.next++
			return zvAnswer(r, 200, "application/json", fmt.Sprintf(`{"SUBID":"new%d"}`, f.next))
		}
	}
	return zvAnswer(r, 404, "text/plain", "unknown call "+q.Path)
}

// images is the table of images: releases, architectures and instance types
// of every region, of which one line is the right one.
func (f *zvFakeNet) images() string {
	var b strings.Builder
	b.WriteString("{\n  \"aaData\": [\n")
	line := func(region, release, version, arch, typ, ami string) {
		fmt.Fprintf(&b, "[\"%s\",\"%s\",\"%s\",\"%s\",\"%s\",\"20210415\",\"<a href=\\\"https://console.aws.amazon.com/ec2/home?region=%s#launchAmi=%s\\\">%s</a>\",\"hvm\"],\n", region, release, version, arch, typ, region, ami, ami)
	}
	for _, r := range f.w.AWS {
		line(r.Name, "groovy", "20.10", "amd64", "hvm:ebs-ssd", "ami-groovy"+r.Name)
		line(r.Name, "focal", "20.04 LTS", "arm64", "hvm:ebs-ssd", "ami-arm"+r.Name)
		line(r.Name, "bionic", "18.04 LTS", "amd64", "hvm:ebs-ssd", "ami-bionic"+r.Name)
	}
	line("nowhere", strings.Repeat("x", f.w.Line), "20.04 LTS", "amd64", "hvm:ebs-ssd", "ami-nowhere")
	for _, r := range f.w.AWS {
		if r.AMI != "" {
			line(r.Name, "focal", "20.04 LTS", "amd64", "hvm:ebs-ssd", r.AMI)
		}
	}
	b.WriteString("]}\n")
	return b.String()
}

func zvXML(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// zvFilters reads the filters of a request.
func zvFilters(form url.Values) map[string][]string {
	res := map[string][]string{}
	for i := 1; ; i++ {
		n := form.Get(fmt.Sprintf("Filter.%d.Name", i))
		if n == "" {
			return res
		}
		for j := 1; ; j++ {
			k := fmt.Sprintf("Filter.%d.Value.%d", i, j)
			if !form.Has(k) {
				break
			}
			res[n] = append(res[n], form.Get(k))
		}
	}
}

func zvIn(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (f *zvFakeNet) ec2(r *http.Request, q zvReq) *http.Response {
	region := strings.TrimSuffix(strings.TrimPrefix(q.Host, "ec2."), ".amazonaws.com")
	action := q.Form.Get("Action")
	ok := func(inner string) *http.Response {
		return zvAnswer(r, 200, "text/xml", fmt.Sprintf("<%sResponse xmlns=\"http://ec2.amazonaws.com/doc/2016-11-15/\"><requestId>1</requestId>%s</%sResponse>", action, inner, action))
	}
	var here *zvAWSRegion
	for i := range f.w.AWS {
		if f.w.AWS[i].Name == region {
			here = &f.w.AWS[i]
		}
	}
	fl := zvFilters(q.Form)
	if action == "DescribeRegions" {
		s := ""
		for _, g := range f.w.AWS {
			if l, there := fl["opt-in-status"]; there && !zvIn(g.OptIn, l) {
				continue
			}
			s += fmt.Sprintf("<item><regionName>%s</regionName><regionEndpoint>ec2.%s.amazonaws.com</regionEndpoint><optInStatus>%s</optInStatus></item>", g.Name, g.Name, g.OptIn)
		}
		return ok("<regionInfo>" + s + "</regionInfo>")
	}
	if here == nil || here.OptIn == "not-opted-in" || here.Broken == action {
		return zvRefuse(r)
	}
	switch action {
	case "DescribeInstances":
		var sel []zvVM
		for _, v := range f.w.VMs {
			if v.Region != region {
				continue
			}
			key := "pika"
			if v.OtherKey {
				key = "Name"
			}
			match := true
			for n, l := range fl {
				switch {
				case strings.HasPrefix(n, "tag:"):
					match = match && n[4:] == key && zvIn(v.Tag, l)
				case n == "tag-key":
					match = match && zvIn(key, l)
				case n == "instance-state-code":
					match = match && zvIn(strconv.Itoa(v.Code), l)
				case n == "instance-state-name":
					match = match && zvIn(zvStates[v.Code&255], l)
				default:
					return zvRefuse(r)
				}
			}
			if match {
				sel = append(sel, v)
			}
		}
		next := q.Form.Get("NextToken")
		if f.w.Gaps && (next == "" || next[0] != 'p') {
			// a page may be empty although others follow
			if next == "" {
				next = "0"
			}
			return ok("<reservationSet/><nextToken>p" + next + "</nextToken>")
		}
		from, _ := strconv.Atoi(strings.TrimPrefix(next, "p"))
		to, token := len(sel), ""
		if f.w.Page > 0 && from+f.w.Page < to {
			to = from + f.w.Page
			token = "<nextToken>" + strconv.Itoa(to) + "</nextToken>"
		}
		s := ""
		for i := from; i < to; i++ {
			v := sel[i]
			key := "pika"
			if v.OtherKey {
				key = "Name"
			}
			if i == from || i%3 == 0 { // several instances per reservation
				if i > from {
					s += "</instancesSet></item>"
				}
				s += fmt.Sprintf("<item><reservationId>r%d</reservationId><instancesSet>", i)
			}
			ips := ""
			if v.Code&255 == 16 {
				ips = fmt.Sprintf("<privateIpAddress>%s</privateIpAddress><ipAddress>%s</ipAddress>", v.Private, v.IP)
			}
			s += fmt.Sprintf("<item><instanceId>%s</instanceId><instanceState><code>%d</code><name>%s</name></instanceState>%s<tagSet><item><key>%s</key><value>%s</value></item></tagSet></item>", v.ID, v.Code, zvStates[v.Code&255], ips, key, zvXML(v.Tag))
		}
		if to > from {
			s += "</instancesSet></item>"
		}
		return ok("<reservationSet>" + s + "</reservationSet>" + token)
	case "DescribeKeyPairs":
		s := ""
		if here.Key != "" && (len(fl["tag-key"]) == 0 || zvIn("pika2", fl["tag-key"])) {
			s = "<item><keyName>" + here.Key + "</keyName></item>"
		}
		return ok("<keySet>" + s + "</keySet>")
	case "DescribeSecurityGroups":
		s := ""
		if here.Group != "" && (len(fl["tag-key"]) == 0 || zvIn("pika", fl["tag-key"])) {
			s = "<item><groupId>" + here.Group + "</groupId></item>"
		}
		return ok("<securityGroupInfo>" + s + "</securityGroupInfo>")
	case "DescribeVpcs":
		return ok("<vpcSet><item><vpcId>vpc-" + region + "</vpcId></item></vpcSet>")
	case "CreateSecurityGroup":
		return ok("<groupId>sg-new-" + region + "</groupId><return>true</return>")
	case "AuthorizeSecurityGroupIngress", "AuthorizeSecurityGroupEgress":
		return ok("<return>true</return>")
	case "RunInstances", "TerminateInstances":
		if action == "RunInstances" && q.Form.Get("ImageId") == "" {
			return zvRefuse(r)
		}
		return ok("<instancesSet></instancesSet>")
	}
	return zvRefuse(r)
}

var zvStates = map[int]string{0: "pending", 16: "running", 32: "shutting-down", 48: "terminated", 64: "stopping", 80: "stopped"}

// zvCommandMain is the process that runs the command.
func zvCommandMain() {
	var args []string
	json.Unmarshal([]byte(os.Getenv("ZV_ARGS")), &args)
	f := &zvFakeNet{fails: map[string]bool{}}
	if w := os.Getenv("ZV_CLOUD"); w != "" {
		b, err := os.ReadFile(w)
		if err == nil {
			err = json.Unmarshal(b, &f.w)
		}
		if err != nil {
			panic(err)
		}
	}
	lf, err := os.OpenFile(os.Getenv("ZV_LOG"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	f.log = lf
	http.DefaultTransport = f
	http.DefaultClient.Transport = f
	os.Args = append([]string{"testbed"}, args...)
	main()
	os.Exit(0)
}

// ---------------------------------------------------------------- in the check

type zvCommandResult struct {
	Code  int // -1: it did not end
	Panic bool
	Out   string
	Reqs  []zvReq
}

// zvCommand runs the testbed command in a process of its own.
func zvCommand(dir string, cloud *zvCloud, env []string, stdin string, args ...string) (zvCommandResult, error) {
	var res zvCommandResult
	aj, _ := json.Marshal(args)
	logf := filepath.Join(dir, "requests")
	os.Remove(logf)
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVerif$")
	e := []string{}
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "AWS_") && !strings.HasPrefix(v, "HOME=") && !strings.HasPrefix(v, "VERIF_PROP") && !strings.HasPrefix(strings.ToLower(v), "http") {
			e = append(e, v)
		}
	}
	e = append(e, "ZV_ARGS="+string(aj), "ZV_LOG="+logf, "HOME="+dir, "VULTR_KEY=the-key", "AWS_SHARED_CREDENTIALS_FILE="+filepath.Join(dir, "credentials"), "AWS_CONFIG_FILE="+filepath.Join(dir, "config"), "AWS_EC2_METADATA_DISABLED=true")
	e = append(e, env...)
	if cloud != nil {
		b, _ := json.Marshal(cloud)
		cf := filepath.Join(dir, "cloud")
		if err := os.WriteFile(cf, b, 0o644); err != nil {
			return res, vh.Harnessf("%v", err)
		}
		e = append(e, "ZV_CLOUD="+cf)
		if err := os.WriteFile(filepath.Join(dir, "credentials"), []byte("[pika]\naws_access_key_id = a\naws_secret_access_key = b\n"), 0o644); err != nil {
			return res, vh.Harnessf("%v", err)
		}
	}
	cmd.Env = e
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return res, vh.Harnessf("%v", err)
	}
	killed := false
	timer := time.AfterFunc(12*time.Second, func() { killed = true; cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	res.Code, res.Out = cmd.ProcessState.ExitCode(), out.String()
	if killed {
		res.Code = -1
	}
	res.Panic = strings.Contains(res.Out, "panic:") || strings.Contains(res.Out, "fatal error:")
	b, _ := os.ReadFile(logf)
	dec := json.NewDecoder(bytes.NewReader(b))
	for dec.More() {
		var q zvReq
		if err := dec.Decode(&q); err != nil {
			return res, vh.Harnessf("request log: %v", err)
		}
		res.Reqs = append(res.Reqs, q)
	}
	return res, nil
}

type zvCloudCase struct {
	Cloud  zvCloud
	Vendor string // "" leaves the option out
	Action string
	Tag    string
	NoTag  bool // leave the option out
	Yes    bool
	Answer string
	Loc    string
	Count  int     // 0 leaves the option out
	Price  float64 // 0 leaves the option out
	List   bool
}

var zvTags = []string{"a", "ab", "A", "ouroboros", "test 1", "b&c", "a-rather-long-tag-of-an-experiment", strings.Repeat("tag-", 60)}

func zvGenCloud(t *rapid.T) zvCloudCase {
	r := vh.NewRng(vh.Seed(t))
	c := zvCloudCase{Vendor: vh.OneOf(t, "vendor", "", "vultr", "aws", "aws"), Action: vh.OneOf(t, "action", "start", "start", "stop", "stop", "stop", "reboot", "status", "status"), Tag: vh.OneOf(t, "tag", zvTags...), List: rapid.Bool().Draw(t, "list")}
	switch vh.Uniform(t, "tagging", 12) {
	case 0:
		c.Tag = ""
	case 1, 2:
		c.NoTag, c.Tag = true, "ouroboros"
	}
	c.Yes = vh.Uniform(t, "yes", 4) != 0
	c.Answer = vh.OneOf(t, "answer", "y\n", "n\n", "Y\n", "\n", "", "yes\n", "N\n", "no\n")
	if vh.Uniform(t, "odd", 25) == 0 {
		c.Action = vh.OneOf(t, "oddAction", "destroy", "Stop", "")
	}
	if c.Vendor == "aws" && c.Action == "reboot" {
		c.Action = "stop"
	}
	if vh.Uniform(t, "oddVendor", 40) == 0 {
		c.Vendor = vh.OneOf(t, "vendorName", "gcp", "AWS", "Vultr", "aw", "vult")
	}
	c.Count = vh.OneOf(t, "count", 0, 1, 2, 5, 0, 13)
	c.Price = vh.OneOf(t, "price", 0, 80, 40, 5.5, 0)
	tag := func() string {
		if r.Intn(3) == 0 {
			return c.Tag
		}
		return zvTags[r.Intn(len(zvTags))]
	}
	n := vh.Size(t, "servers", 14)
	large := vh.Uniform(t, "large", 16) == 0
	if large {
		n = vh.OneOf(t, "manyServers", 70, 300, 900)
	}
	w := &c.Cloud
	if c.Vendor != "aws" {
		c.Loc = vh.OneOf(t, "loc", "", "", "tokyo", "new", "S", "seoul", "zzz", "Tokyo")
		for i := 0; i < n; i++ {
			w.VMs = append(w.VMs, zvVM{ID: strconv.Itoa(1000 + i*7), IP: fmt.Sprintf("10.%d.%d.%d", i/200, r.Intn(3), i%200), Location: []string{"Tokyo", "Paris", "Miami"}[r.Intn(3)], Tag: tag(),
				Status: []string{"active", "active", "active", "active", "pending", "closed", "suspended"}[r.Intn(7)], State: []string{"ok", "ok", "ok", "locked", "installingbooting", "none"}[r.Intn(6)]})
			if r.Intn(10) == 0 {
				w.VMs[i].Tag = ""
			}
		}
		names := []string{"Tokyo", "New Jersey", "Seoul", "Paris", "Los Angeles", "Sydney", "Silicon Valley", "New York", "Miami"}
		for i, k := range r.Perm(len(names)) {
			if r.Intn(5) > 0 {
				w.Regions = append(w.Regions, zvNamed{strconv.Itoa(i*3 + 1), names[k]})
			}
		}
		price := c.Price
		if price == 0 {
			price = 80
		}
		plan := func(id int, p float64) {
			pl := zvPlan{ID: id, Price: strconv.FormatFloat(p, 'f', 2, 64)}
			for i := range names {
				if r.Intn(4) > 0 {
					pl.Regions = append(pl.Regions, i*3+1)
				}
			}
			pl.Regions = append(pl.Regions, 99)
			w.Plans = append(w.Plans, pl)
		}
		plan(201, price)
		plan(204, 5)
		plan(524, price)
		switch r.Intn(10) {
		case 0:
		case 1:
			plan(523, price+10)
		default:
			plan(523, price)
		}
		named := func(name string, first int, others ...string) (l []zvNamed) {
			for i, o := range others {
				l = append(l, zvNamed{strconv.Itoa(first + i), o})
			}
			if r.Intn(14) > 0 {
				l = append(l, zvNamed{strconv.Itoa(first + 77), name})
			}
			return
		}
		w.Keys = named("macOS Testbed", 300, "macOS", "Testbed", "macos testbed", "macOS Testbed 2")
		w.OSes = named("Ubuntu 22.04 x64", 400, "Ubuntu 20.04 x64", "Ubuntu 22.04 LTS x64", "Debian 11 x64")
		w.Scripts = named("increase-sshmaxsessions", 500, "increase", "increase-sshmaxsessions-2")
	} else {
		c.Loc = vh.OneOf(t, "loc", "", "", "us", "us-east-1", "EU", "zzz", "-1")
		names := []string{"us-east-1", "us-east-2", "us-west-1", "eu-west-1", "eu-north-1", "ap-east-1", "sa-east-1"}
		if vh.Uniform(t, "allRegions", 6) == 0 {
			names = append(names, "us-west-2", "eu-west-2", "eu-west-3", "eu-central-1", "eu-central-2", "eu-south-1", "eu-south-2", "ap-south-1", "ap-south-2", "ap-southeast-1", "ap-southeast-2", "ap-southeast-3", "ap-southeast-4", "ap-northeast-1", "ap-northeast-2", "ap-northeast-3", "ca-central-1", "ca-west-1", "me-south-1", "me-central-1", "il-central-1", "af-south-1")
		}
		for _, k := range r.Perm(len(names))[:1+vh.Uniform(t, "regions", len(names))] {
			g := zvAWSRegion{Name: names[k], AMI: fmt.Sprintf("ami-%08x", r.Intn(1<<30)), Key: "key-" + names[k], Group: "sg-" + names[k]}
			g.OptIn = []string{"opt-in-not-required", "opt-in-not-required", "opt-in-not-required", "opted-in", "not-opted-in"}[r.Intn(5)]
			if r.Intn(4) == 0 {
				g.Group = ""
			}
			if r.Intn(8) == 0 {
				g.Key = ""
			}
			if r.Intn(12) == 0 {
				g.AMI, g.Group = "", "sg-"+names[k]
			}
			if r.Intn(8) == 0 {
				g.Broken = []string{"DescribeInstances", "RunInstances", "TerminateInstances", "DescribeKeyPairs", "DescribeSecurityGroups", "CreateSecurityGroup"}[r.Intn(6)]
			}
			w.AWS = append(w.AWS, g)
		}
		w.Page = []int{0, 1, 2, 5}[r.Intn(4)]
		w.Gaps = r.Intn(4) == 0
		w.NoTable = r.Intn(10) == 0
		w.Line = []int{0, 0, 3000, 70000, 300000, 3000000}[r.Intn(6)]
		busy := r.Intn(len(w.AWS)) // most servers are there
		if large {
			w.Page = []int{0, 100, 1000}[r.Intn(3)]
		}
		for i := 0; i < 2*n; i++ {
			v := zvVM{ID: fmt.Sprintf("i-%04x", 4096+i*11), IP: fmt.Sprintf("54.%d.%d.%d", i/200, r.Intn(3), i%200), Private: fmt.Sprintf("172.%d.%d.%d", 31+i/200, r.Intn(3), i%200), Tag: tag(), Region: w.AWS[r.Intn(len(w.AWS))].Name, OtherKey: r.Intn(6) == 0}
			if large && r.Intn(5) > 0 {
				v.Tag, v.Region, v.OtherKey = c.Tag, w.AWS[busy].Name, false
			}
			v.Code = []int{16, 16, 16, 16, 16, 272, 0, 32, 48, 64, 80}[r.Intn(11)]
			if large && r.Intn(10) > 0 {
				v.Code = 16
			}
			w.VMs = append(w.VMs, v)
		}
	}
	if vh.Uniform(t, "fault", 5) == 0 {
		w.FailAt = 1 + vh.Uniform(t, "failAt", 10)
		w.FailHow = vh.OneOf(t, "failHow", "refuse", "refuse", "refuse", "once")
	}
	return c
}

func (c zvCloudCase) args(list string) []string {
	args := []string{"cluster", c.Action}
	if c.Vendor != "" {
		args = append(args, "-vendor", c.Vendor)
	}
	if !c.NoTag {
		args = append(args, "-t", c.Tag)
	}
	if c.Yes {
		args = append(args, "-y")
	}
	if c.Loc != "" {
		args = append(args, "-d", c.Loc)
	}
	if c.Count != 0 {
		args = append(args, "-n", strconv.Itoa(c.Count))
	}
	if c.Price != 0 {
		args = append(args, "-p", strconv.FormatFloat(c.Price, 'f', -1, 64))
	}
	if c.List {
		args = append(args, "-l", list)
	}
	return args
}

func zvSorted(l []string) string {
	sort.Strings(l)
	return strings.Join(l, " | ")
}

func zvCluster(x *vh.Ctx, c zvCloudCase) error {
	dir, err := os.MkdirTemp("", "cluster")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	list := filepath.Join(dir, "servers.json")
	args := c.args(list)
	res, err := zvCommand(dir, &c.Cloud, nil, c.Answer, args...)
	if err != nil {
		return err
	}
	what := strings.Join(args, " ")
	if res.Code == -1 {
		return vh.Fail("no-end", "%s does not end: %s", what, res.Out)
	}
	if res.Panic {
		if strings.Contains(res.Out, "all goroutines are asleep") {
			return vh.Fail("no-end", "%s never ends: %s", what, res.Out)
		}
		return vh.Fail("crash", "%s: %s", what, res.Out)
	}
	// what changed
	var changes []string
	failed := 0
	for _, q := range res.Reqs {
		if q.Failed {
			failed++
			continue
		}
		a := q.Form.Get("Action")
		if q.Host == "api.vultr.com" {
			if q.Key != "the-key" && q.Path != "/v1/plans/list" && q.Path != "/v1/regions/list" && q.Path != "/v1/os/list" {
				return vh.Fail("wrong-account", "%s: key %q in %v", what, q.Key, q)
			}
			if q.Method != "GET" {
				s := q.Path
				for _, k := range vh.SortedKeys(q.Form) {
					if k != "notify_activate" {
						s += " " + k + "=" + strings.Join(q.Form[k], ",")
					}
				}
				changes = append(changes, s)
			}
		} else if a != "" && !strings.HasPrefix(a, "Describe") {
			f := q.Form
			s := q.Host + " " + a
			region := strings.TrimSuffix(strings.TrimPrefix(q.Host, "ec2."), ".amazonaws.com")
			broken := false
			for _, g := range c.Cloud.AWS {
				if g.Name == region && g.Broken == a {
					broken = true
				}
			}
			if broken {
				continue
			}
			switch a {
			case "TerminateInstances":
				for i := 1; f.Has(fmt.Sprintf("InstanceId.%d", i)); i++ {
					changes = append(changes, s+" "+f.Get(fmt.Sprintf("InstanceId.%d", i)))
				}
				continue
			case "RunInstances":
				if f.Get("ImageId") == "" {
					continue // refused
				}
				ud, _ := base64.StdEncoding.DecodeString(f.Get("UserData"))
				if !strings.HasPrefix(string(ud), "#!/bin/bash") || !strings.Contains(string(ud), "MaxSessions") {
					return vh.Fail("wrong-launch", "%s: user data %q", what, ud)
				}
				for _, k := range []string{"ImageId", "KeyName", "MinCount", "MaxCount", "SecurityGroupId.1", "TagSpecification.1.ResourceType", "TagSpecification.1.Tag.1.Key", "TagSpecification.1.Tag.1.Value"} {
					s += " " + f.Get(k)
				}
			case "CreateSecurityGroup":
				s += " " + f.Get("VpcId") + " " + f.Get("TagSpecification.1.Tag.1.Key")
			case "AuthorizeSecurityGroupIngress":
				s += " " + f.Get("GroupId")
			}
			changes = append(changes, s)
		}
	}
	x.TagIf(failed > 0, "failed-request")
	x.Tag(c.Vendor + "-" + c.Action)

	if c.Vendor != "" && c.Vendor != "vultr" && c.Vendor != "aws" {
		if len(res.Reqs) > 0 {
			return vh.Fail("odd-vendor", "%s: %d requests", what, len(res.Reqs))
		}
		return nil
	}
	known := map[string]bool{"start": true, "stop": true, "status": true, "reboot": c.Vendor != "aws"}
	if !known[c.Action] {
		if len(res.Reqs) > 0 || res.Code == 0 {
			return vh.Fail("odd-action", "%s: exit status %d, %d requests", what, res.Code, len(res.Reqs))
		}
		return nil
	}
	if c.Action != "status" {
		if c.Tag == "" {
			if len(res.Reqs) > 0 || res.Code == 0 {
				return vh.Fail("missing-tag", "%s: exit status %d, %d requests without a tag", what, res.Code, len(res.Reqs))
			}
			x.Tag("missing-tag")
			return nil
		}
		if yes := strings.TrimSpace(c.Answer); !c.Yes && yes != "y" && yes != "Y" {
			if len(res.Reqs) > 0 {
				return vh.Fail("unconfirmed", "%s: answered %q, yet %d requests were made", what, c.Answer, len(res.Reqs))
			}
			x.Tag("declined")
			return nil
		}
	}

	// what should have changed
	var want []string
	complete := true // every change has to have happened
	must := 0        // exit status: 0, 1, or -1 for either
	count := c.Count
	if count == 0 {
		count = 1
	}
	var listed []Server
	if c.Vendor != "aws" {
		keypath := filepath.Join(dir, ".ssh", "vultr")
		switch c.Action {
		case "stop", "reboot":
			path := "/v1/server/destroy"
			if c.Action == "reboot" {
				path = "/v1/server/reboot"
			}
			for _, v := range c.Cloud.VMs {
				if v.Tag == c.Tag && v.Status != "pending" && v.Status != "closed" && v.State != "locked" {
					want = append(want, path+" SUBID="+v.ID)
				}
			}
		case "status":
			count := map[string]int{}
			for _, v := range c.Cloud.VMs {
				if c.Tag == "" || v.Tag == c.Tag {
					count["all"]++
					count[v.Status]++
					if v.Status == "active" {
						count[v.State]++
					}
					listed = append(listed, Server{ID: v.ID, PublicIP: v.IP, PrivateIP: v.IP, Port: 22, User: "root", KeyPath: keypath, Location: v.Location, Tag: v.Tag, Provider: "vultr"})
				}
			}
			if failed == 0 {
				line := fmt.Sprintf("%d total, %d active (%d ok, %d installing), %d pending", count["all"], count["active"], count["ok"], count["installingbooting"], count["pending"])
				if !strings.Contains(res.Out, line) {
					return vh.Fail("wrong-status", "%s: should report %q, reports %q", what, line, res.Out)
				}
			}
		case "start":
			one := func(l []zvNamed, name string) string {
				for _, n := range l {
					if n.Name == name {
						return n.ID
					}
				}
				return ""
			}
			key, osid, script := one(c.Cloud.Keys, "macOS Testbed"), one(c.Cloud.OSes, "Ubuntu 22.04 x64"), one(c.Cloud.Scripts, "increase-sshmaxsessions")
			price := c.Price
			if price == 0 {
				price = 80
			}
			var plan *zvPlan
			for i, p := range c.Cloud.Plans {
				if f, _ := strconv.ParseFloat(p.Price, 64); p.ID == 523 && f == price {
					plan = &c.Cloud.Plans[i]
				}
			}
			if key == "" || osid == "" || script == "" || plan == nil {
				must = 1
				x.Tag("cannot-start")
				break
			}
			for _, g := range c.Cloud.Regions {
				id, _ := strconv.Atoi(g.ID)
				there := false
				for _, i := range plan.Regions {
					there = there || i == id
				}
				l := strings.ToLower(g.Name)
				if !there || l == "seoul" || !strings.Contains(l, strings.ToLower(c.Loc)) {
					continue
				}
				for i := 0; i < count; i++ {
					want = append(want, fmt.Sprintf("/v1/server/create DCID=%s OSID=%s SCRIPTID=%s SSHKEYID=%s VPSPLANID=523 tag=%s", g.ID, osid, script, key, c.Tag))
				}
			}
			for i := range want {
				listed = append(listed, Server{ID: fmt.Sprintf("new%d", i+1), Port: 22, User: "root", KeyPath: keypath, Provider: "vultr"})
			}
			if must == 0 && failed == 0 && !strings.Contains(res.Out, fmt.Sprintf("Launched %d servers", len(want))) {
				return vh.Fail("wrong-status", "%s: should report %d launches, reports %q", what, len(want), res.Out)
			}
		}
		if failed > 0 && c.Cloud.FailHow == "refuse" {
			complete = false
			if must == 0 {
				must = 1
			}
		}
	} else {
		keypath := filepath.Join(dir, ".ssh", "pikaaws")
		for _, g := range c.Cloud.AWS {
			host := "ec2." + g.Name + ".amazonaws.com "
			if g.OptIn == "not-opted-in" {
				continue
			}
			switch c.Action {
			case "stop", "status":
				if g.Broken == "DescribeInstances" {
					continue
				}
				for _, v := range c.Cloud.VMs {
					if v.Region != g.Name || v.OtherKey || v.Code&255 != 16 || c.Tag != "" && v.Tag != c.Tag {
						continue
					}
					if c.Action == "status" {
						listed = append(listed, Server{ID: v.ID, PublicIP: v.IP, PrivateIP: v.Private, Port: 22, User: "ubuntu", KeyPath: keypath, Location: g.Name, Tag: c.Tag, Provider: "aws"})
					} else if g.Broken != "TerminateInstances" {
						want = append(want, host+"TerminateInstances "+v.ID)
					}
				}
			case "start":
				if !strings.Contains(g.Name, strings.ToLower(c.Loc)) || c.Cloud.NoTable || g.Key == "" || g.Broken == "DescribeKeyPairs" || g.Broken == "DescribeSecurityGroups" {
					continue
				}
				group := g.Group
				if group == "" {
					if g.Broken == "CreateSecurityGroup" {
						continue
					}
					want = append(want, host+"CreateSecurityGroup vpc-"+g.Name+" pika", host+"AuthorizeSecurityGroupIngress sg-new-"+g.Name)
					group = "sg-new-" + g.Name
				}
				if g.Broken != "RunInstances" && g.AMI != "" {
					want = append(want, fmt.Sprintf("%sRunInstances %s %s %d %d %s instance pika %s", host, g.AMI, g.Key, count, count, group, c.Tag))
				}
			}
		}
		if failed > 0 && (c.Cloud.FailHow == "refuse" || c.Action == "start") {
			complete = false // and the other regions go on
			must = -1
		}
	}
	g, w := zvSorted(changes), zvSorted(want)
	if complete && g != w {
		return vh.Fail("wrong-changes", "%s made the changes\n%s\ninstead of\n%s\n(%s)", what, strings.ReplaceAll(g, " | ", "\n"), strings.ReplaceAll(w, " | ", "\n"), res.Out)
	}
	if !complete {
		left := map[string]int{}
		for _, s := range want {
			left[s]++
		}
		for _, s := range changes {
			if left[s] == 0 {
				return vh.Fail("wrong-changes", "%s made the change %s, one of its requests having failed; allowed: %s", what, s, w)
			}
			left[s]--
		}
		// what is not concerned by the failure happens all the same
		if c.Vendor == "aws" {
			bad := map[string]bool{}
			for _, q := range res.Reqs {
				if q.Failed {
					bad[q.Host] = true
					if q.Form.Get("Action") == "DescribeRegions" || !strings.Contains(q.Host, "amazonaws") {
						return nil
					}
				}
			}
			for s, n := range left {
				if n > 0 && !bad[strings.Fields(s)[0]] {
					return vh.Fail("wrong-changes", "%s: %s did not happen, although no request of that region failed", what, s)
				}
			}
		}
	}
	if must == 0 && res.Code != 0 || must == 1 && res.Code == 0 {
		return vh.Fail("wrong-exit", "%s: exit status %d: %s", what, res.Code, res.Out)
	}
	if c.List && res.Code == 0 && complete && (c.Action == "status" || c.Action == "start" && c.Vendor != "aws") {
		got := ReadServerInfo(list)
		var a, b []string
		for _, s := range got {
			if c.Vendor == "aws" && c.Tag == "" {
				s.Tag = ""
			}
			a = append(a, zvKey(s))
		}
		for _, s := range listed {
			b = append(b, zvKey(s))
		}
		if ga, gb := zvSorted(a), zvSorted(b); ga != gb {
			return vh.Fail("wrong-list", "%s wrote the server list %s instead of %s", what, ga, gb)
		}
		x.Tag("list-written")
	}
	if len(want) > 0 || len(listed) > 1 {
		x.NonTrivial()
	}
	x.Add("changes", len(changes))
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C36", Rule: "a change at the cloud is due, or at least two servers are to be listed",
		Assumptions: []string{"the clouds behave like the model: tags match exactly, AWS lists in pages"},
		Subs: []*vh.Sub{
			vh.NewSub("cluster", 1000, zvGenCloud, zvCluster).T(5000),
		}})
}
