package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/flow/definition"
	flowsupport "github.com/project-flogo/flow/support"
)

// C15: remote flows. Documents are served from files and a local server, in
// several forms and with faults, and compared with the same document loaded
// as a resource.

// remote is a source of a flow document
type remote struct {
	Kind  string `json:"kind"` // res file gzfile http httpz httpgz redirect
	Fault string `json:"fault,omitempty"`
	Name  string `json:"name"`

	mu     sync.Mutex
	uri    string
	path   string // file
	raw    []byte
	status int
	cut    bool
	drop   bool
	delay  time.Duration
	n      int // requests
}

var (
	remMu   sync.Mutex
	remotes = map[string]*remote{}
	remBase string
	remDir  string
	remSeq  int64
)

func startRemotes() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	remBase = "http://" + l.Addr().String()
	go func() { _ = (&http.Server{Handler: http.HandlerFunc(serveRemote)}).Serve(l) }()
	remDir, err = os.MkdirTemp("", "vrun-c15-")
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func serveRemote(w http.ResponseWriter, q *http.Request) {
	// the whole URI names the document, with its query and as it is spelled
	name := strings.TrimPrefix(q.URL.RequestURI(), "/")
	remMu.Lock()
	r := remotes[strings.TrimPrefix(name, "to/")]
	remMu.Unlock()
	if r == nil {
		w.WriteHeader(404)
		return
	}
	r.mu.Lock()
	kind, raw, status, cut, drop, delay := r.Kind, r.raw, r.status, r.cut, r.drop, r.delay
	if kind == "redirect" && !strings.HasPrefix(name, "to/") {
		r.mu.Unlock()
		http.Redirect(w, q, "/to/"+name, http.StatusFound)
		return
	}
	r.n++
	r.mu.Unlock()
	time.Sleep(delay)
	if drop {
		panic(http.ErrAbortHandler)
	}
	switch kind {
	case "httpz":
		w.Header().Set("flow-compressed", []string{"true", "TRUE", "True"}[len(raw)%3])
	case "httpgz":
		w.Header().Set("Content-Encoding", "gzip")
	}
	if cut {
		w.Header().Set("Content-Length", fmt.Sprint(len(raw)+10))
	}
	if status != 0 {
		w.WriteHeader(status)
	}
	_, _ = w.Write(raw)
	if cut {
		panic(http.ErrAbortHandler)
	}
}

var remKinds = []string{"file", "gzfile", "http", "httpz", "httpgz", "redirect"}

func newRemote(s *Src, others []*remote) *remote {
	r := &remote{Kind: remKinds[s.N(len(remKinds))]}
	r.Name = fmt.Sprintf("f%d", atomic.AddInt64(&remSeq, 1))
	// the name can be much like that of another one
	var prev *remote
	if len(others) > 0 && s.P(40) {
		prev = others[s.N(len(others))]
	}
	if prev != nil && prev.isFile() != r.isFile() {
		prev = nil
	}
	if r.isFile() {
		n := r.Name + s.Str(".json", " x.json", "")
		if prev != nil {
			n = alike(s, filepath.Base(prev.path), "~.")
		}
		r.path = filepath.Join(remDir, n)
		for _, o := range others {
			if o.path == r.path {
				r.path = filepath.Join(remDir, r.Name)
			}
		}
		r.uri = "file://" + strings.ReplaceAll(r.path, " ", s.Str(" ", "%20"))
	} else {
		key := r.Name
		if s.P(20) {
			key += "?v=1&w=%20"
		}
		if prev != nil {
			key = alike(s, prev.Name, "?&/")
		}
		remMu.Lock()
		if remotes[key] == nil {
			r.Name = key
		}
		remotes[r.Name] = r
		remMu.Unlock()
		r.uri = remBase + "/" + r.Name
	}
	return r
}

// alike gives a name that differs little from the given one
func alike(s *Src, name, seps string) string {
	sep := seps[s.N(len(seps)):][:1]
	switch s.N(4) {
	case 0:
		return strings.ToUpper(name[:1]) + name[1:]
	case 1:
		return name + sep
	case 2:
		if i := strings.LastIndexAny(name, seps); i > 0 {
			return name[:i]
		}
	}
	return name + sep + "v=" + fmt.Sprint(s.N(3))
}

func served(rs []*remote) (out []*remote) {
	for _, r := range rs {
		if r != nil {
			out = append(out, r)
		}
	}
	return
}

func (r *remote) isFile() bool { return r.Kind == "file" || r.Kind == "gzfile" }

func (r *remote) close() {
	remMu.Lock()
	delete(remotes, r.Name)
	remMu.Unlock()
	if r.path != "" {
		_ = os.Remove(r.path)
	}
}

func gz(b []byte, level int) []byte {
	var buf bytes.Buffer
	w, _ := gzip.NewWriterLevel(&buf, level)
	_, _ = w.Write(b)
	_ = w.Close()
	return buf.Bytes()
}

func gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// encode gives the bytes to be served for a document
func (r *remote) encode(s *Src, doc []byte) []byte {
	switch r.Kind {
	case "gzfile", "httpgz":
		return gz(doc, 1+s.N(9))
	case "httpz":
		return []byte(base64.StdEncoding.EncodeToString(gz(doc, 1+s.N(9))))
	}
	return doc
}

// decode gives the document that the served bytes denote
func (r *remote) decode(raw []byte) ([]byte, error) {
	switch r.Kind {
	case "file", "gzfile":
		if len(raw) > 1 && raw[0] == 0x1f && raw[1] == 0x8b {
			return gunzip(raw)
		}
	case "httpgz":
		return gunzip(raw)
	case "httpz":
		b, err := base64.StdEncoding.DecodeString(string(raw))
		if err != nil {
			return nil, err
		}
		return gunzip(b)
	}
	return raw, nil
}

// put makes the bytes available
func (r *remote) put(raw []byte) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.raw, r.status, r.cut, r.drop = raw, 0, false, false
	if r.path != "" {
		if err := os.WriteFile(r.path, raw, 0o600); err != nil {
			panic("harness: " + err.Error())
		}
	}
}

func (r *remote) requests() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.n
}

// within runs f, which must end
func within(f func()) bool {
	ch := make(chan struct{})
	var p interface{}
	go func() {
		defer close(ch)
		defer func() { p = recover() }()
		f()
	}()
	select {
	case <-ch:
		if p != nil {
			panic(p)
		}
		return true
	case <-time.After(runLimit):
		return false
	}
}

func runC15(cx *Cx) *Outcome {
	s := cx.S
	switch s.Pick(40, 50, 10, 5) {
	case 3:
		return c15URI(cx)
	case 0:
		return c15Run(cx)
	case 1:
		return c15Doc(cx)
	}
	return c15Provider(cx)
}

// c15Run executes flows that come from different sources
func c15Run(cx *Cx) *Outcome {
	s := cx.S
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 5, 4, 4
	p.Sub, p.Loop, p.Fail, p.EH, p.ErrLink = 40, 8, 6, 20, 10
	cs := genCase(s, p)
	o := &Outcome{Case: cs, Feat: map[string]int{}}
	n := atomic.AddInt64(&caseSeq, 1)
	ids := cs.flowIDs(n)
	l := &Loaded{cs: cs}
	var rs []*remote
	var names []string
	for i := range cs.Flows {
		if s.P(15) {
			l.uris = append(l.uris, "res://"+ids[i])
			rs = append(rs, nil)
			names = append(names, "res")
			continue
		}
		r := newRemote(s, served(rs))
		defer r.close()
		if s.P(20) {
			r.delay = time.Duration(s.N(3)) * 300 * time.Microsecond
		}
		l.uris = append(l.uris, r.uri)
		rs = append(rs, r)
		names = append(names, r.Kind)
		o.Feat[r.Kind]++
	}
	defer l.unload()
	o.Case = map[string]interface{}{"case": cs, "sources": names}
	uri := func(i int) string { return l.uris[i] }
	fail := func(f string, a ...interface{}) *Outcome {
		o.Viol = fmt.Sprintf(f, a...)
		return o
	}
	for i, r := range rs {
		if r != nil {
			r.put(r.encode(s, cs.Flows[i].JSON(uri)))
		}
	}
	for i, r := range rs {
		if r == nil {
			if _, err := loadRes(ids[i], cs.Flows[i].JSON(uri)); err != nil {
				return fail("a valid flow is rejected: %v", err)
			}
		}
	}
	// several callers at once
	var dmu sync.Mutex
	defs := map[string]*definition.Definition{}
	if s.P(60) {
		var wg sync.WaitGroup
		for i, r := range rs {
			for k, n := 0, s.N(4); r != nil && k < n; k++ {
				o.Feat["parallel-lookups"]++
				wg.Add(1)
				go func(i int, uri string) {
					defer wg.Done()
					d, _, err := flowsupport.GetDefinition(uri)
					dmu.Lock()
					defer dmu.Unlock()
					if err != nil || d == nil {
						fail("flow %d cannot be looked up at %s: %v", i, names[i], err)
					} else if old := defs[uri]; old != nil && old != d {
						fail("two callers get different definitions of %s", uri)
					}
					defs[uri] = d
				}(i, r.uri)
			}
		}
		if !within(wg.Wait) {
			o.Hang = true
			return fail("hang: flows are not looked up")
		}
		if o.Viol != "" {
			return o
		}
	}
	var err error
	if !within(func() {
		l.act, err = factory.New(&action.Config{Settings: map[string]interface{}{"flowURI": l.uris[0]}})
	}) {
		o.Hang = true
		return fail("hang: no action is created for the flow")
	}
	if err != nil {
		return fail("no action is created for a valid flow (%s): %v", names[0], err)
	}
	// a subflow whose source is not there yet
	late := -1
	if i := s.N(len(rs)); i > 0 && rs[i] != nil && defs[rs[i].uri] == nil && s.P(40) {
		late = i
		r := rs[i]
		raw := r.raw
		r.put([]byte("late"))
		in := copyMap(cs.In)
		if in == nil {
			in = map[string]interface{}{}
		}
		pid := newFree()
		in["pid"] = pid
		c := newCollect()
		if err := l.act.(action.AsyncAction).Run(context.Background(), in, c); err != nil {
			return fail("the run could not be started: %v", err)
		}
		if !c.wait() {
			o.Hang = true
			return fail("hang: a run with a subflow that cannot be loaded does not end")
		}
		freeRuns.Delete(pid)
		r.put(raw)
		o.Feat["source-late"]++
	}
	for k, n := 0, 1+s.N(3); k < n; k++ {
		r, err := l.exec(&RunOpts{})
		if err == errTimeout {
			o.Hang = true
		}
		r.M.mu.Lock()
		o.Viol = r.M.viol
		o.Hist = append(o.Hist, r.M.hist...)
		o.Feat = merge(o.Feat, r.M.feat)
		execs := r.M.execs
		r.M.mu.Unlock()
		o.Feat["executions"] += execs
		if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" {
			o.Viol = "after the run had ended: " + orph[0]
		}
		if o.Viol != "" {
			return o
		}
		if o.Feat["subflow"] > 0 && execs > 2 {
			o.Non = true
		}
		if k == 0 {
			// what was fetched is not needed again; what was not is still there
			for i, r := range rs {
				if r == nil || !s.P(50) {
					continue
				}
				d, _, err := flowsupport.GetDefinition(r.uri)
				if err != nil || d == nil {
					return fail("flow %d cannot be looked up at %s: %v", i, names[i], err)
				}
				if old := defs[r.uri]; old != nil && old != d {
					return fail("the definition of %s has changed", r.uri)
				}
				o.Feat["source-gone"]++
				r.put([]byte(s.Str("", "gone", "null")))
			}
		}
	}
	for i, r := range rs {
		if r != nil && !r.isFile() && r.requests() > 1 && i != late {
			return fail("flow %d (%s) was fetched %d times", i, names[i], r.requests())
		}
	}
	return o
}

func loadRes(id string, doc []byte) (*definition.Definition, error) {
	quiesce()
	d, err := loadDoc(doc)
	if err != nil {
		return nil, err
	}
	return d, flowsupport.SetResource(resConfig(id, doc))
}

// c15Doc looks up one document, mostly with a fault
func c15Doc(cx *Cx) *Outcome {
	s := cx.S
	o := &Outcome{Feat: map[string]int{}}
	r := newRemote(s, nil)
	defer r.close()
	fail := func(f string, a ...interface{}) *Outcome {
		if o.Viol == "" {
			o.Viol = fmt.Sprintf(f, a...)
			o.Hist = append(o.Hist, "!! "+o.Viol)
		}
		return o
	}
	g := &docGen{s: s}
	if s.P(15) {
		g.bad = true
		g.skip = s.N(4)
	}
	dm, _ := g.doc()
	bad := g.what != ""
	if s.P(15) {
		c := clone(dm)
		for i, n := 0, 1+s.N(3); i < n; i++ {
			c = mutate(s, c, 0)
		}
		if m, ok := c.(map[string]interface{}); ok {
			dm = m
			bad = true
		}
	}
	doc, _ := json.Marshal(dm)
	dg := &docGen{s: s}
	gm, _ := dg.doc()
	good, _ := json.Marshal(gm)
	if s.P(10) {
		doc = []byte(s.Str("null", "[]", "{}", "1", `"x"`, "true", " ", "\n", `{"tasks":null}`, "{}{}", "\ufeff{}"))
		bad = true
	}
	raw := r.encode(s, doc)
	what := "none"
	mustFail := false
	if s.P(70) {
		switch s.N(8) {
		case 0:
			what, mustFail = "missing", true
		case 1:
			what, raw = "empty", nil
			mustFail = true
		case 2:
			what = "truncated"
			raw = raw[:s.N(len(raw))]
			if s.P(30) && len(raw) > 4 {
				raw = raw[:s.N(5)]
			}
		case 3, 4:
			what = "corrupt"
			raw = append([]byte{}, raw...)
			for i, n := 0, 1+s.N(3); i < n; i++ {
				p := s.N(len(raw))
				if s.P(30) && len(raw) > 20 {
					p = s.N(20)
				}
				raw[p] ^= 1 << s.N(8)
			}
		case 5:
			what = "garbage"
			raw = append(append([]byte{}, raw...), s.Str("x", "\x00", "}", "{}", "\n", "=")...)
		case 6:
			what = "status"
			mustFail = !r.isFile()
		case 7:
			what = s.Str("cut", "drop")
			mustFail = !r.isFile()
		}
	}
	r.Fault = what
	o.Feat["fault: "+what]++
	o.Feat[r.Kind]++
	o.Case = map[string]interface{}{"source": r, "document": string(doc), "bytes": fmt.Sprintf("%q", raw)}
	r.put(raw)
	switch what {
	case "missing":
		if r.path != "" {
			_ = os.Remove(r.path)
			if s.P(20) {
				_ = os.Mkdir(r.path, 0o700)
			}
		} else {
			remMu.Lock()
			delete(remotes, r.Name)
			remMu.Unlock()
		}
	case "status":
		r.status = []int{300, 304, 400, 401, 403, 404, 405, 408, 410, 418, 429, 500, 501, 502, 503, 504}[s.N(16)]
	case "cut":
		r.cut = true
	case "drop":
		r.drop = true
	}
	// what is to be expected
	var wd *definition.Definition
	var werr error
	if mustFail {
		werr = errors.New(what)
	} else {
		var b []byte
		if b, werr = r.decode(raw); werr == nil {
			if p := recovered(func() { wd, werr = loadDoc(b) }); p != "" {
				werr = errors.New(p)
			}
		}
	}
	if !bad && what == "none" && werr != nil {
		return fail("a valid document is rejected: %v", werr)
	}
	o.Non = true
	get := func() (d *definition.Definition, err error) {
		var p string
		if !within(func() { p = recovered(func() { d, _, err = flowsupport.GetDefinition(r.uri) }) }) {
			o.Hang = true
			fail("hang: the flow is not looked up")
			return nil, errTimeout
		}
		if p != "" {
			fail("looking up the flow panics: %s", p)
			return
		}
		if (d == nil) == (err == nil) {
			fail("looking up the flow gives %v and error %v", d, err)
		}
		if err != nil && err.Error() == "" {
			fail("looking up the flow fails with an empty message")
		}
		return
	}
	if werr != nil {
		o.Feat["errors"]++
		// more than one caller, by different ways
		for i, n := 0, 1+s.N(2); i < n; i++ {
			if s.P(50) {
				d, err := get()
				if o.Viol != "" {
					return o
				}
				if err == nil {
					return fail("the flow is accepted (%q), want an error: %v", d.Name(), werr)
				}
			} else {
				var act action.Action
				var err error
				var p string
				if !within(func() {
					p = recovered(func() {
						act, err = factory.New(&action.Config{Settings: map[string]interface{}{"flowURI": r.uri}})
					})
				}) {
					o.Hang = true
					return fail("hang: no action is created")
				}
				if p != "" {
					return fail("creating the action panics: %s", p)
				}
				if err == nil || act != nil {
					return fail("an action is created for a flow that is not available (%v)", werr)
				}
			}
		}
		if s.P(40) {
			if e := c15Call(r.uri, true, o); e != "" {
				return fail("%s", e)
			}
		}
		// once it is available it can be used
		if what == "missing" {
			if r.path != "" {
				_ = os.Remove(r.path)
			}
			remMu.Lock()
			remotes[r.Name] = r
			remMu.Unlock()
		}
		r.put(r.encode(s, good))
		var err error
		if wd, err = loadDoc(good); err != nil {
			return fail("a valid document is rejected: %v", err)
		}
	}
	before := r.requests()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first *definition.Definition
	k := 1
	if s.P(40) {
		k = 2 + s.N(4)
		r.delay = time.Duration(s.N(3)) * 500 * time.Microsecond
	}
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var d *definition.Definition
			var err error
			p := recovered(func() { d, _, err = flowsupport.GetDefinition(r.uri) })
			mu.Lock()
			defer mu.Unlock()
			switch {
			case p != "":
				fail("looking up the flow panics: %s", p)
			case err != nil || d == nil:
				fail("the flow cannot be looked up: %v", err)
			case first != nil && first != d:
				fail("two callers get different definitions")
			}
			first = d
		}()
	}
	if !within(wg.Wait) {
		o.Hang = true
		return fail("hang: the flow is not looked up")
	}
	mu.Lock()
	defer mu.Unlock()
	if o.Viol != "" {
		return o
	}
	if !r.isFile() && r.requests() != before+1 {
		return fail("%d requests for %d callers", r.requests()-before, k)
	}
	if a, b := dump(first), dump(wd); a != b {
		return fail("the remote flow differs from the one loaded as a resource:\n%s\n%s", a, b)
	}
	r.put([]byte("gone"))
	if d, err := get(); err != nil || d != first {
		return fail("the flow is another one when it is looked up again: %v", err)
	}
	return o
}

// c15Call calls a flow that is not available
func c15Call(uri string, bad bool, o *Outcome) string {
	o.Feat["calls-unavailable"]++
	id := fmt.Sprintf("flow:k%d", atomic.AddInt64(&remSeq, 1))
	doc, _ := json.Marshal(J{"name": "caller", "tasks": []interface{}{
		J{"id": "c", "activity": J{"ref": refSub, "settings": J{"flowURI": uri}, "input": J{"x": 1}}}}})
	if _, err := loadRes(id, doc); err != nil {
		return "a flow that calls an unavailable flow is rejected: " + err.Error()
	}
	defer func() {
		quiesce()
		delete(ictx.resources, id)
	}()
	act, err := factory.New(&action.Config{Settings: map[string]interface{}{"flowURI": "res://" + id}})
	if err != nil {
		return "no action is created for a flow that calls an unavailable flow: " + err.Error()
	}
	h := newCollect()
	if err := act.(action.AsyncAction).Run(bg, map[string]interface{}{}, h); err != nil {
		return "the run could not be started: " + err.Error()
	}
	if !h.wait() {
		o.Hang = true
		return "hang: a run that calls an unavailable flow does not end"
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.res) != 1 || h.res[0].Err == nil || h.dones != 1 {
		return fmt.Sprintf("a run that calls an unavailable flow ends with %d results (%v) and %d signals, want one error", len(h.res), h.res, h.dones)
	}
	return ""
}

// c15URI: what is no URI of a flow
func c15URI(cx *Cx) *Outcome {
	s := cx.S
	o := &Outcome{Feat: map[string]int{"bad-uri": 1}, Non: true}
	host := strings.TrimPrefix(remBase, "http://")
	uri := s.Str("", "x", "http://", "http:// ", "http://[::1", "http://"+host+"/%zz", "http://"+host+":x/", "http://"+host+"/\x7f", "http://127.0.0.1:1/f",
		"file://", "file:///", "file://"+remDir, "file:///nosuch/f.json", "ftp://"+host+"/f", "https://"+host+"/f", "FILE://"+remDir, "res://", "res://flow", "res://flow:nosuch", "flow:nosuch", ":", "http:", "file:")
	if s.P(20) {
		uri += s.Str(" ", "#", "?", "%", "\n")
	}
	o.Case = map[string]interface{}{"uri": uri}
	fail := func(f string, a ...interface{}) *Outcome {
		o.Viol = fmt.Sprintf(f, a...)
		return o
	}
	for i := 0; i < 2; i++ {
		var d *definition.Definition
		var act action.Action
		var err, err2 error
		var p string
		if !within(func() {
			p = recovered(func() {
				d, _, err = flowsupport.GetDefinition(uri)
				act, err2 = factory.New(&action.Config{Settings: map[string]interface{}{"flowURI": uri}})
			})
		}) {
			o.Hang = true
			return fail("hang: looking up %q does not end", uri)
		}
		if p != "" {
			return fail("looking up %q panics: %s", uri, p)
		}
		if d != nil || act != nil || err2 == nil {
			return fail("looking up %q gives %v, %v; %v, %v", uri, d, err, act, err2)
		}
		if err != nil && strings.Contains(err.Error(), "nil pointer") {
			return fail("looking up %q panics: %v", uri, err)
		}
	}
	if uri != "" && s.P(50) {
		if e := c15Call(uri, true, o); e != "" {
			return fail("%s", e)
		}
	}
	return o
}

type fakeProvider struct {
	mu  sync.Mutex
	n   int
	get func(n int, uri string) (*definition.DefinitionRep, error)
}

func (p *fakeProvider) GetFlow(uri string) (*definition.DefinitionRep, error) {
	p.mu.Lock()
	p.n++
	n := p.n
	p.mu.Unlock()
	return p.get(n, uri)
}

// c15Provider: a flow manager with another provider
func c15Provider(cx *Cx) *Outcome {
	s := cx.S
	o := &Outcome{Feat: map[string]int{"provider": 1}, Non: true}
	g := &docGen{s: s}
	dm, _ := g.doc()
	doc, _ := json.Marshal(dm)
	fails := s.N(3)
	kind := s.N(3)
	o.Case = map[string]interface{}{"document": string(doc), "failures": fails, "kind": kind}
	fail := func(f string, a ...interface{}) *Outcome {
		if o.Viol == "" {
			o.Viol = fmt.Sprintf(f, a...)
		}
		return o
	}
	p := &fakeProvider{}
	p.get = func(n int, uri string) (*definition.DefinitionRep, error) {
		if n <= fails {
			switch kind {
			case 0:
				return nil, errors.New("provider fails")
			case 1:
				return nil, nil
			}
			return &definition.DefinitionRep{Tasks: []*definition.TaskRep{nil}}, nil
		}
		var rep *definition.DefinitionRep
		err := json.Unmarshal(doc, &rep)
		return rep, err
	}
	fm := flowsupport.NewFlowManager(p)
	var d1 *definition.Definition
	for i := 0; i < fails+2; i++ {
		var d *definition.Definition
		var err error
		if e := recovered(func() { d, err = fm.GetFlow("x:y") }); e != "" {
			return fail("GetFlow panics: %s", e)
		}
		if i < fails {
			if err == nil || d != nil {
				return fail("GetFlow gives %v and error %v although the provider has no flow", d, err)
			}
			continue
		}
		if err != nil || d == nil {
			return fail("GetFlow fails: %v", err)
		}
		if d1 != nil && d != d1 {
			return fail("GetFlow gives another definition")
		}
		d1 = d
	}
	if p.n != fails+1 {
		return fail("%d fetches, want %d", p.n, fails+1)
	}
	w, err := loadDoc(doc)
	if err != nil {
		return fail("a valid document is rejected: %v", err)
	}
	if a, b := dump(d1), dump(w); a != b {
		return fail("the provided flow differs from the one loaded as a resource:\n%s\n%s", a, b)
	}
	return o
}

func init() {
	register(&Prop{ID: "C15", Quick: 40000, Thorough: 800000, Run: runC15, Variants: []Variant{{Name: "remote"}},
		Init: func(*Variant) {
			initC08()
			startRemotes()
		},
		Rule: "Flows that call each other, each from another source (file, compressed file, HTTP plain, compressed, gzip-encoded, redirected, resource), looked up by several callers and run repeatedly while sources disappear; and generated documents behind missing, empty, truncated, corrupted or failing sources that are repaired afterwards; non-trivial: a run with a subflow, or any looked up document"})
}
