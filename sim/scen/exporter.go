package scen

import (
	"archive/tar"
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"nimsim/h"
)

// The export scenario: the export script asks a simulated node for blocks over a
// faulty connection and writes an archive, which the import command may read.

func init() {
	h.Register(&h.Scenario{Name: "export", Exec: execExport, Budget: 200_000_000})
	h.RegisterCheck(&h.Check{Property: "C25", Quick: 50000, Thorough: 1500000, Gen: genExport,
		Rule:    "A run lets the export script ask a simulated node for a range of blocks in batches and judges the archive it leaves behind. Non-trivial: an answer was reordered, damaged or failed, the output had no room, or the archive was imported.",
		Real:    []string{"scripts/export_blocks.py", "cmd/gimiq (main function), genesis, accounts, tree, beserial, wire and policy where the archive is imported"},
		Stub:    []string{"HTTP client and connection (requests module)", "node", "standard output (file in memory with a size limit)", "clock and sleep", "process exit"},
		Measure: "distinct (faults, division into batches, outcome)",
		Assume:  []string{"the node gives the right bytes for a number where it gives any", "the script makes its requests one after another"},
		Faults:  []string{"reordered", "missing", "doubled", "foreign", "error", "null", "http status", "connection", "truncated", "not json", "not a list", "bad hex", "empty", "stale", "surplus", "slow", "no room"}})
}

var exportFaults = []string{"reordered", "missing", "doubled", "doubled instead", "error", "null", "foreign", "foreign instead", "http status", "connection", "truncated", "not json", "not a list", "bad hex", "empty", "stale", "surplus", "slow"}

func genExport(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "export", Cfg: map[string]int64{}}
	c := p.Cfg
	c["world"] = int64(r.Intn(1 << 30))
	n := 1 + r.Geo(8)
	if r.P(5) {
		n = 1 + r.Intn(400)
	}
	batch := 1 + r.Intn(n+2)
	switch r.Intn(8) {
	case 0:
		batch = n
	case 1:
		batch = 1 + r.Intn(3)
	case 2:
		batch = 100
	case 3:
		for d := 1 + r.Intn(n); d > 0; d-- {
			if n%d == 0 {
				batch = d // divides the range
				break
			}
		}
	}
	c["n"], c["batch"] = int64(n), int64(batch)
	c["from"] = int64([]int{0, 1, 2, 1 + r.Intn(200), 1 << uint(r.Intn(31)), r.Intn(1 << 21), 99, 995}[r.Intn(8)])
	if r.P(2) {
		c["n"] = int64(-r.Intn(5))
	}
	if r.P(20) {
		c["small"] = 1
	}
	if r.P(2) {
		c["batch"] = int64(-r.Intn(5))
	}
	if r.P(20) {
		// batches of the usual size
		c["batch"] = -1 << 20
	}
	if idx%20 == 7 {
		// A real chain.
		c["chain"] = 1
		c["actors"], c["slots"], c["contracts"] = int64(1+r.Intn(5)), int64(r.Intn(4)), int64(r.Intn(3))
		for i := r.Intn(8); i > 0; i-- {
			for n := r.Geo(2); n > 0; n-- {
				p.Add("good", int64(r.Weighted([]int{30, 25, 8, 8, 15})), int64(r.Intn(1<<12)), int64(r.Intn(1<<12)), []int64{0, 0, 1, 2, 6}[r.Intn(5)], int64(r.Intn(5)), int64(r.Intn(6)), int64(r.Intn(1<<30)), int64(r.Intn(1<<12)))
			}
			p.Add("block", int64(r.Intn(1<<12)), int64(r.U64()>>1))
		}
	}
	switch r.Intn(4) {
	case 0: // the node answers in another order
		for k := 1 + r.Geo(1); k > 0; k-- {
			p.Add("fault", int64(r.Intn(1<<10)), 0, int64(r.U64()>>1))
		}
	case 1, 2:
		for k := 1 + r.Geo(1); k > 0; k-- {
			p.Add("fault", int64(r.Intn(1<<10)), int64(r.Intn(len(exportFaults))), int64(r.U64()>>1))
		}
	}
	if r.P(12) {
		p.Add("room", int64(r.Intn(1<<20)), int64(r.Intn(4)))
	}
	return p
}

// pyProc is the process that runs the script.
type pyProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var exportProc *pyProc

const scriptDir = "/repo/scripts"

// exportScript finds the script.
func exportScript() string {
	if p := filepath.Join(scriptDir, "export_blocks.py"); exists(p) {
		return p
	}
	all, _ := filepath.Glob(filepath.Join(scriptDir, "*.py"))
	for _, p := range all {
		if b, err := os.ReadFile(p); err == nil && bytes.Contains(b, []byte("getSerializedBlockByNumber")) {
			return p
		}
	}
	return ""
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}

func startPy() *pyProc {
	if exportProc != nil {
		return exportProc
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	c := exec.Command("python3", "-B", filepath.Join(dir, "sim", "py", "export_driver.py"))
	c.Env = append(os.Environ(), "PYTHONHASHSEED=0", "PYTHONDONTWRITEBYTECODE=1")
	c.Dir = os.TempDir()
	c.Stderr = os.Stderr
	in, err := c.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := c.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if c.Start() != nil {
		return nil
	}
	exportProc = &pyProc{c, in, bufio.NewReaderSize(out, 1<<20)}
	return exportProc
}

type pyMsg struct {
	T      string `json:"t"`
	URL    string `json:"url"`
	Body   string `json:"body"`
	Status int    `json:"status"`
	Why    string `json:"why"`
	Out    string `json:"out"`
	Err    string `json:"err"`
	Slept  float64
	Late   int // answers that came after the script's timeout
}

func (p *pyProc) send(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		panic("export driver: " + err.Error())
	}
}

func (p *pyProc) receive() (m pyMsg) {
	b, err := p.out.ReadBytes('\n')
	if err != nil {
		panic("export driver: " + err.Error())
	}
	if err := json.Unmarshal(b, &m); err != nil {
		panic("export driver: " + err.Error())
	}
	return m
}

type exportRun struct {
	x      *h.Ctx
	r      *h.Rand
	from   int64
	n      int64
	faults []h.Step
	chain  [][]byte // from block 1, nil if made up
	last   string   // answer to the previous request
	served int
	shape  string
	done   map[string]bool
	hit    bool // something other than order went wrong
}

func (e *exportRun) block(n int64) []byte {
	if e.chain != nil {
		if n < 1 || n > int64(len(e.chain)) {
			return nil
		}
		return e.chain[n-1]
	}
	r := h.NewRand(uint64(n)*0x9e3779b97f4a7c15 + uint64(e.x.Plan.Cfg["world"]))
	size := 1 + r.Geo(120)
	switch r.Intn(24) {
	case 0:
		size = []int{511, 512, 513, 1024, 1, 10240}[r.Intn(6)]
	case 1:
		size = 1 + r.Intn(20000)
		if r.P(10) {
			size = []int{65535, 65536, 65537, 100000, 1<<17 + 1}[r.Intn(5)]
		}
	}
	if e.x.Plan.Cfg["small"] == 1 {
		size = 1 + size%512
	}
	b := r.Bytes(size)
	if r.P(5) {
		for i := range b {
			b[i] = 0
		}
	}
	return b
}

type rpcCall struct {
	ID     json.RawMessage `json:"id"`
	Method string          `json:"method"`
	Params []interface{}   `json:"params"`
}

// answer is what the node returns for a request.
func (e *exportRun) answer(body string, req int, total int) (reply map[string]interface{}) {
	reply = map[string]interface{}{"status": 200, "latency": 0.005 + 0.2*e.r.Float()}
	var calls []rpcCall
	single := false
	if err := json.Unmarshal([]byte(body), &calls); err != nil {
		var one rpcCall
		if json.Unmarshal([]byte(body), &one) != nil {
			reply["body"] = `{"jsonrpc":"2.0","id":null,"error":{"code":-32700,"message":"Parse error"}}`
			return
		}
		calls, single = []rpcCall{one}, true
	}
	e.shape += fmt.Sprint(len(calls), ",")
	res := make([]string, 0, len(calls))
	for _, c := range calls {
		id := string(c.ID)
		if c.ID == nil {
			id = "null"
		}
		val := `"error":{"code":-32601,"message":"Method not found"}`
		if c.Method == "getSerializedBlockByNumber" && len(c.Params) > 0 {
			val = `"result":null`
			f, ok := c.Params[0].(float64)
			if s, isS := c.Params[0].(string); isS {
				v, err := strconv.ParseInt(s, 0, 64)
				f, ok = float64(v), err == nil
			}
			if ok {
				if b := e.block(int64(f)); b != nil {
					e.served++
					val = `"result":"` + hex.EncodeToString(b) + `"`
				}
			}
		}
		res = append(res, fmt.Sprintf(`{"jsonrpc":"2.0",%s,"id":%s}`, val, id))
	}
	join := func() string {
		if single && len(res) == 1 {
			return res[0]
		}
		return "[" + strings.Join(res, ",") + "]"
	}
	whole := join()
	for i := range e.faults {
		f := &e.faults[i]
		if total > 0 && f.Mod(0, total) != req {
			continue
		}
		kind := f.Mod(1, len(exportFaults))
		name := exportFaults[kind]
		r := h.NewRand(f.UArg(2))
		pick := func() int { return r.Intn(len(res)) }
		if len(res) == 0 {
			continue
		}
		took := true
		switch name {
		case "reordered":
			perm := r.Perm(len(res))
			if r.P(30) {
				for i := range perm {
					perm[i] = len(res) - 1 - i
				}
			}
			moved := make([]string, len(res))
			took = false
			for i, j := range perm {
				moved[i] = res[j]
				took = took || i != j
			}
			res = moved
		case "missing":
			i := pick()
			if r.P(30) {
				i = len(res) - 1
			}
			res = append(res[:i:i], res[i+1:]...)
		case "doubled":
			i, j := pick(), r.Intn(len(res)+1)
			s := res[i]
			if r.P(50) {
				j = i
			}
			res = append(res[:j:j], append([]string{s}, res[j:]...)...)
		case "doubled instead":
			i, j := pick(), pick()
			took = i != j
			res[i] = res[j]
		case "error":
			i := pick()
			res[i] = fmt.Sprintf(`{"jsonrpc":"2.0","error":{"code":-32603,"message":"Internal error"},"id":%s}`, calls[i%len(calls)].ID)
			if r.P(30) {
				res[i] = fmt.Sprintf(`{"jsonrpc":"2.0","error":{"code":-32603,"message":"Internal error"},"result":null,"id":%s}`, calls[i%len(calls)].ID)
			}
		case "null":
			i := pick()
			res[i] = fmt.Sprintf(`{"jsonrpc":"2.0","result":null,"id":%s}`, calls[i%len(calls)].ID)
			if r.P(20) {
				res[i] = "null"
			}
		case "foreign", "foreign instead":
			n := e.from + e.n + int64(r.Intn(3))
			if r.P(50) {
				n = e.from - 1 - int64(r.Intn(3))
			}
			b := e.block(n)
			if b == nil {
				b = []byte{1, 2, 3}
			}
			s := fmt.Sprintf(`{"jsonrpc":"2.0","result":"%x","id":%d}`, b, n)
			if name == "foreign" {
				j := []int{0, len(res), pick()}[r.Intn(3)]
				res = append(res[:j:j], append([]string{s}, res[j:]...)...)
			} else {
				res[pick()] = s
			}
		case "http status":
			reply["status"] = []int{400, 401, 404, 429, 500, 502, 503, 504}[r.Intn(8)]
			if r.P(50) {
				res = nil
			}
		case "connection":
			reply["raise"] = []string{"ConnectionError", "ReadTimeout", "ConnectTimeout", "ChunkedEncodingError"}[r.Intn(4)]
		case "truncated", "not json", "not a list", "stale":
			// below, for the whole body
		case "bad hex":
			i := pick()
			s := res[i]
			if at := strings.Index(s, `"result":"`); at >= 0 {
				at += len(`"result":"`)
				if end := strings.IndexByte(s[at:], '"'); end > 0 {
					k := at + r.Intn(end)
					if end%2 == 0 && r.P(50) {
						s = s[:k] + s[k+1:] // half a byte is lost
					} else {
						s = s[:k] + "g" + s[k+1:]
					}
				}
			}
			res[i] = s
		case "empty":
			res = nil
		case "slow":
			reply["latency"] = float64(1 + r.Geo(60))
		case "surplus":
			for k := 1 + int64(r.Intn(3)); k > 0; k-- {
				n := e.from + int64(r.Intn(int(e.n)+1))
				if b := e.block(n); b != nil {
					res = append(res, fmt.Sprintf(`{"jsonrpc":"2.0","result":"%x","id":%d}`, b, n))
				}
			}
			took = len(res) > len(calls)
		}
		body := join()
		switch name {
		case "truncated":
			k := r.Intn(len(body))
			if r.P(30) {
				k = len(body) - 1
			}
			body = body[:k]
		case "not json":
			body = "<html><body>Bad gateway</body></html>"
		case "not a list":
			body = `{"jsonrpc":"2.0","id":null,"error":{"code":-32000,"message":"Overloaded"}}`
		case "stale":
			took = e.last != ""
			if took {
				body = e.last
			}
		}
		if took {
			e.x.Count("fault." + name)
			e.done[name] = true
			if name != "reordered" && name != "slow" {
				e.hit = true
			}
			reply["body"] = body
			switch name {
			case "truncated", "not json", "not a list", "stale":
				e.last = whole
				return
			}
		}
	}
	if reply["body"] == nil {
		reply["body"] = join()
	}
	e.last = whole
	return
}

func execExport(x *h.Ctx, p *h.Plan) {
	script := exportScript()
	if script == "" {
		x.Count("export_unavailable")
		return
	}
	py := startPy()
	if py == nil {
		x.Count("python_unavailable")
		return
	}
	c := p.Cfg
	e := &exportRun{x: x, r: h.NewRand(uint64(c["world"]) + 9), from: c["from"], n: c["n"], done: map[string]bool{}}
	if e.from < 0 || e.from > 1<<40 {
		e.from = 0
	}
	if e.n > 1000 {
		e.n = 1000
	}
	var m *importRun
	if c["chain"] == 1 && os.Getenv("NIMSIM_MODE") != "none" {
		m = e.build(p)
		defer m.d.unmount()
	}
	room := int64(-1)
	for i := range p.Steps {
		s := &p.Steps[i]
		switch s.Op {
		case "fault":
			e.faults = append(e.faults, *s)
		case "room":
			room = s.Arg(0) & (1<<40 - 1)
			size := int64(0)
			for k := int64(0); k < e.n; k++ {
				size += 512 + int64(len(e.block(e.from+k))+511)/512*512
			}
			size += 1024
			switch s.Mod(1, 4) {
			case 0: // at the end
				room = size - room%2048
			case 1:
				room = room % (size + 512) / 512 * 512
			default:
				room %= size + 1
			}
			if room < 0 {
				room = 0
			}
		}
	}
	to := e.from + e.n - 1
	if to < 0 {
		to = 0
		e.n = to - e.from + 1
	}
	args := []string{"--rpc_url", "http://node:8648", "--from", fmt.Sprint(e.from), "--to", fmt.Sprint(to)}
	batch := c["batch"]
	if batch > -1<<19 {
		args = append(args, fmt.Sprintf("--batch=%d", batch))
	} else {
		batch = 100
	}
	total := 1
	if batch > 0 && e.n > 0 {
		total = int((e.n + batch - 1) / batch)
	}
	py.send(map[string]interface{}{"script": script, "args": args, "limit": 5000, "room": room})
	var end pyMsg
	for req := 0; ; req++ {
		end = py.receive()
		if end.T != "request" {
			break
		}
		x.Count("op.request")
		if req == 4*total {
			e.faults = nil // faults stop at last, for those who try again
		}
		py.send(e.answer(end.Body, req%total, total))
	}
	if end.T != "done" {
		panic("export driver: " + end.Why)
	}
	x.Sim(end.Slept * 1000)
	out, err := base64.StdEncoding.DecodeString(end.Out)
	if err != nil {
		panic(err)
	}
	x.Count("op.export")
	full := room >= 0 && end.Status != 0
	if full {
		x.Count("fault.no room")
	}
	kinds := ""
	for _, k := range exportFaults {
		if e.done[k] {
			kinds += k + "; "
		}
	}
	if room >= 0 {
		kinds += "no room; "
	}
	desc := fmt.Sprintf("export %v [%s]", args, kinds)
	x.Log("%s: status %d", desc, end.Status)
	x.State(h.HashBytes([]byte(fmt.Sprint(kinds, e.shape, end.Status))))
	if kinds != "" {
		x.Nontrivial()
	}
	if end.Status == -1 {
		x.Fail("C25", "no end", "%s: %s", desc, end.Why)
	}
	if strings.Contains(end.Why, "module 'requests") || strings.HasPrefix(end.Why, "ModuleNotFoundError") || strings.HasPrefix(end.Why, "ImportError") {
		x.Count("unjudged") // needs more than the simulated world has
		return
	}
	if end.Status != 0 {
		x.Count("exports_failed")
		if !e.hit && end.Late == 0 && room < 0 && batch > 0 && e.n > 0 {
			x.Fail("C25", "good export failed", "%s: status %d (%s)", desc, end.Status, end.Why)
		}
		return
	}
	x.Count("exports_succeeded")
	e.judge(out, desc)
	if m != nil {
		e.importInto(m, out, desc)
	}
}

// judge compares the archive with what was asked for.
func (e *exportRun) judge(out []byte, desc string) {
	x := e.x
	t := tar.NewReader(bytes.NewReader(out))
	for n := e.from; ; n++ {
		hd, err := t.Next()
		if err == io.EOF {
			if n < e.from+e.n {
				x.Fail("C25", "blocks missing", "%s: ended with success, but the archive ends before block %d", desc, n)
			}
			return
		}
		var d []byte
		if err == nil {
			d, err = io.ReadAll(t)
		}
		if err != nil {
			x.Fail("C25", "torn archive", "%s: ended with success, but reading block %d back: %v", desc, n, err)
		}
		if n >= e.from+e.n {
			x.Fail("C25", "surplus block", "%s: entry %q follows after the last block %d", desc, hd.Name, n-1)
		}
		if hd.Name != fmt.Sprint(n) {
			x.Fail("C25", "blocks out of order", "%s: entry %q where block %d is due", desc, hd.Name, n)
		}
		if !bytes.Equal(d, e.block(n)) {
			x.Fail("C25", "block differs", "%s: block %d has other bytes than the node gave", desc, n)
		}
		x.Count("blocks_exported")
	}
}

// build makes a chain for the node to serve.
func (e *exportRun) build(p *h.Plan) *importRun {
	m := &importRun{x: e.x, d: mountDisk(), startOK: true, name: "custom"}
	r := h.NewRand(uint64(p.Cfg["world"]) + 5)
	m.w = newWorld(uint64(p.Cfg["world"]), int(p.Cfg["actors"]%16), int(p.Cfg["slots"]%16))
	m.w.fund(r, []uint64{1000, 1 << 40, 1 << 60}[r.Intn(3)], int(p.Cfg["contracts"]))
	m.prof = newProf(r, m.w, 1)
	for k, b := range [][]byte{m.prof.toml, m.prof.blk, m.prof.accs} {
		m.d.fs.Files[m.name+profFiles[k]] = b
	}
	m.start = m.w.led.clone()
	for i := range p.Steps {
		switch s := &p.Steps[i]; s.Op {
		case "good":
			m.w.addGood(s)
		case "block":
			m.block(s)
		}
	}
	e.chain = append(e.chain, m.prof.blk)
	for _, en := range m.es {
		e.chain = append(e.chain, en.data)
	}
	e.from, e.n = 1, int64(len(e.chain))
	e.x.Count("chains")
	return m
}

// importInto hands the archive to the import command.
func (e *exportRun) importInto(m *importRun, out []byte, desc string) {
	x := e.x
	m.d.fs.Files["chain.tar"] = out
	m.d.sync()
	blocks, txs, fail, judged := m.expect(out)
	if !judged || fail != "" {
		x.Count("unjudged")
		return
	}
	got, failed := m.command([]string{"-blocksPath", "chain.tar", "-profile", m.name})
	x.Count("imports")
	x.Nontrivial()
	if failed != "" {
		x.Fail("C25 C18", "export refused", "%s: gimiq does not import the archive: %s", desc, failed)
	}
	gb, gt := blocksLine.FindStringSubmatch(got), txsLine.FindStringSubmatch(got)
	if gb == nil || gt == nil || gb[1] != fmt.Sprint(blocks) || gt[1] != fmt.Sprint(txs) {
		x.Fail("C25 C18", "import counts", "%s: gimiq reported %q for %d blocks and %d transactions", desc, got, blocks, txs)
	}
}
