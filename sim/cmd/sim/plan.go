package main

import (
	"encoding/json"

	"verifsim/simrt"
)

// A Plan is everything a run depends on besides the code under test: the workload, the
// configuration, the faults and the scheduler's mode. Plan + seed (or plan + recorded
// deviations) is one exactly repeatable execution.
type Plan struct {
	Prop  string            `json:"prop"`
	Scen  string            `json:"scen"`
	Seed  uint64            `json:"seed"`
	Sched simrt.SchedCfg    `json:"sched"`
	Wall  int64             `json:"wall"` // initial wall clock, unix ns
	Env   []string          `json:"env,omitempty"`
	Conf  map[string]string `json:"conf,omitempty"`
	Tasks [][]Op            `json:"tasks,omitempty"`
	Ev    []Op              `json:"ev,omitempty"` // director timeline (Op.At)
	Net   []Fault           `json:"net,omitempty"`
	FS    []Fault           `json:"fs,omitempty"`
	P     map[string]int64  `json:"p,omitempty"`
	Dur   int64             `json:"dur,omitempty"` // ns of simulated time for the main phase
	Lite  bool              `json:"lite,omitempty"`
}

// Op is one step of a task or of the timeline.
type Op struct {
	K   string   `json:"k"`
	At  int64    `json:"at,omitempty"`
	N   int64    `json:"n,omitempty"`
	M   int64    `json:"m,omitempty"`
	S   string   `json:"s,omitempty"`
	U   string   `json:"u,omitempty"`
	L   []string `json:"l,omitempty"`
	Sub []Op     `json:"sub,omitempty"`
	ID  int      `json:"id,omitempty"` // faults with this key belong to the operation
}

// Fault: for the network, K applied to datagram number N (attempt order); for the file system,
// errno K on operations Op on paths containing Path, between From and To.
type Fault struct {
	K    string  `json:"k"`
	N    int     `json:"n,omitempty"`
	D    int64   `json:"d,omitempty"`
	Op   string  `json:"op,omitempty"`
	Path string  `json:"path,omitempty"`
	From int64   `json:"from,omitempty"`
	To   int64   `json:"to,omitempty"`
	Part float64 `json:"part,omitempty"`
	Cnt  int     `json:"cnt,omitempty"` // at most this many (0: any)
	Key  int     `json:"key,omitempty"` // only during the operation with this id
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func (p *Plan) p(k string) int64 { return p.P[k] }
func (p *Plan) pd(k string, d int64) int64 {
	if v, ok := p.P[k]; ok {
		return v
	}
	return d
}

type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Result of one run.
type Result struct {
	Seed     uint64           `json:"seed"`
	Idx      int              `json:"idx"`
	Viol     []Violation      `json:"viol,omitempty"`
	Hash     uint64           `json:"hash"`
	SwHash   uint64           `json:"sw"`
	Steps    int64            `json:"steps"`
	SimNS    int64            `json:"sim_ns"`
	Switches int64            `json:"switches"`
	Pauses   int64            `json:"pauses"`
	EndWhy   string           `json:"end"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Counts   map[string]int64 `json:"counts,omitempty"`
	States   []uint64         `json:"states,omitempty"`
	NonTriv  bool             `json:"nontriv"`
	Sample   string           `json:"sample,omitempty"`
	Plan     *Plan            `json:"plan,omitempty"`
	Devs     []simrt.Dev      `json:"devs,omitempty"`
	Err      string           `json:"err,omitempty"`
	WallMS   float64          `json:"wall_ms"`
	Pairs    int              `json:"pairs"`
	Mode     string           `json:"mode,omitempty"`
	Fatal    bool             `json:"fatal,omitempty"`
	Log      []string         `json:"log,omitempty"`
}
