package main

import (
	"encoding/json"
	"runtime"
)

// Plan is one simulated execution, completely: replaying it repeats the run.
type Plan struct {
	Prop   string           `json:"property"`
	Scen   string           `json:"scenario"`
	Seed   uint64           `json:"seed"`
	Files  []FileSpec       `json:"files,omitempty"`
	Ops    []Op             `json:"ops,omitempty"`
	Tasks  [][]Op           `json:"tasks,omitempty"`
	Faults []Fault          `json:"faults,omitempty"`
	Crash  *Crash           `json:"crash,omitempty"`
	Corr   []Corruption     `json:"corruptions,omitempty"`
	Cap    int64            `json:"disk_capacity,omitempty"`
	Stall  int              `json:"stall_one_in,omitempty"`
	Sched  Sched            `json:"schedule"`
	Cores  int              `json:"cores"`
	Clock  Clock            `json:"clock"`
	P      map[string]int64 `json:"params,omitempty"`
	Class  string           `json:"violation_class,omitempty"`
	Msg    string           `json:"violation,omitempty"`
	Race   bool             `json:"race_build,omitempty"`
}

// Sched says how the interleaving is decided.
type Sched struct {
	Mode     int                     `json:"mode"` // 0 default 1 random 2 pct 3 explicit
	Seed     uint64                  `json:"seed,omitempty"`
	Every    uint64                  `json:"every,omitempty"`
	Points   []int64                 `json:"points,omitempty"`
	Switches []runtime.VerifDecision `json:"switches,omitempty"`
}

// Clock is the simulated wall clock: it starts at Start and jumps by Jumps[i]
// before the reading number i.
type Clock struct {
	Start int64   `json:"start"`
	Step  int64   `json:"step"`
	Jumps []int64 `json:"jumps,omitempty"`
	Lag   int     `json:"lag_one_in,omitempty"` // so often a call takes up to hours
}

// FileSpec is one file to be written through the public API.
type FileSpec struct {
	Path    string  `json:"path"`
	API     string  `json:"api"` // writer simple
	Enc     uint32  `json:"encoding"`
	Block   int64   `json:"block_size"` // 0: option not given
	Batches []Batch `json:"batches"`
	NoFinal bool    `json:"no_finalize,omitempty"`
	Lay     *Layout `json:"foreign_layout,omitempty"`      // written by another implementation
	Split   bool    `json:"finalize_then_close,omitempty"` // Finalize + Close instead of FinalizeAndClose
}

// Batch is one call with N generated (or literal) pairs.
type Batch struct {
	N      int      `json:"n"`
	ID     string   `json:"id_gen,omitempty"`
	Val    string   `json:"val_gen,omitempty"`
	Start  uint64   `json:"start,omitempty"`
	Step   uint64   `json:"step,omitempty"`
	Seed   uint64   `json:"seed,omitempty"`
	IDs    []uint64 `json:"ids,omitempty"`
	Vals   []int64  `json:"vals,omitempty"`
	Target int64    `json:"set_target,omitempty"` // SetTargetBlockSize before it
	Bad    string   `json:"bad,omitempty"`        // mismatch empty: an invalid call first
	Drop   bool     `json:"drop,omitempty"`       // what did not fit into the block is not written
}

// Op is one step of a reader task.
type Op struct {
	Kind   string   `json:"op"`
	File   int      `json:"file,omitempty"`
	Block  int64    `json:"block,omitempty"`
	Par    int      `json:"parallel,omitempty"`
	Skip   bool     `json:"skip_precalculated,omitempty"`
	Allow  *SetSpec `json:"allow,omitempty"`
	Deny   *SetSpec `json:"deny,omitempty"`
	Retry  int      `json:"retry,omitempty"`
	Handle int      `json:"handle,omitempty"`
	Sub    uint64   `json:"readers,omitempty"` // a query over these readers only
}

// SetSpec describes a bitmap of IDs.
type SetSpec struct {
	Kind string   `json:"kind"` // none: nil; empty all some range lit absent
	Mod  uint64   `json:"mod,omitempty"`
	Rem  uint64   `json:"rem,omitempty"`
	Lo   uint64   `json:"lo,omitempty"`
	Hi   uint64   `json:"hi,omitempty"`
	IDs  []uint64 `json:"ids,omitempty"`
	From int      `json:"from,omitempty"` // file whose IDs are the universe
}

// Corruption changes stored bytes.
type Corruption struct {
	File  int    `json:"file,omitempty"`
	Kind  string `json:"kind"`  // flip set zero fill trunc cut append copy
	Where string `json:"where"` // header index entry trailer blockhdr layout ids vals bitmap any end
	Idx   int    `json:"idx,omitempty"`
	Off   int64  `json:"off"`
	Len   int64  `json:"len,omitempty"`
	Val   uint64 `json:"val,omitempty"`
	To    int64  `json:"to,omitempty"`
	At    int    `json:"at,omitempty"` // before this operation (0: before opening)
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

func (p *Plan) par(name string) int64 {
	return p.P[name]
}

func (p *Plan) set(name string, v int64) {
	if p.P == nil {
		p.P = map[string]int64{}
	}
	p.P[name] = v
}
