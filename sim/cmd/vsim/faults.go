package main

import (
	"strings"

	"verif/sim/proto"
)

// Fault placement: a fault is put on a system call of a recorded fault-free
// execution, so that it always hits something.

type faultSpec struct {
	ops    []string
	errnos []int
	kinds  []string
}

const (
	eINTR  = 4
	eIO    = 5
	eNOMEM = 12
	eACCES = 13
	eNOENT = 2
	eMFILE = 24
	eNOSPC = 28
	eDQUOT = 122
	ePIPE  = 32
	eROFS  = 30
	eAGAIN = 11
)

var (
	inputFaults = map[string]faultSpec{
		"open":     {errnos: []int{eIO, eACCES, eMFILE, eNOENT, eINTR}, kinds: []string{"errno", "errno", "sticky"}},
		"read":     {errnos: []int{eIO, eIO, eINTR}, kinds: []string{"errno", "errno", "short", "sticky"}},
		"stat":     {errnos: []int{eIO, eACCES}, kinds: []string{"errno"}},
		"lstat":    {errnos: []int{eIO, eACCES}, kinds: []string{"errno"}},
		"fstat":    {errnos: []int{eIO}, kinds: []string{"errno"}},
		"getdents": {errnos: []int{eIO}, kinds: []string{"errno"}},
		"readlink": {errnos: []int{eIO}, kinds: []string{"errno"}},
	}
)

var outFaults = map[string]faultSpec{
	"stdout": {errnos: []int{eNOSPC, eIO, ePIPE}, kinds: []string{"errno", "errno", "short", "sticky"}},
}

func skipOp(o proto.Op) bool {
	return strings.HasPrefix(o.Path, "/etc/") || strings.HasPrefix(o.Path, "/usr/share/zoneinfo") || strings.HasPrefix(o.Path, "/dev/") || strings.HasPrefix(o.Path, "/proc/") || strings.HasPrefix(o.Path, "/sys/")
}

// pickFault places one fault of the table on the trace.
func pickFault(r *Rand, g *proto.Result, table map[string]faultSpec) *proto.Fault {
	var cand []proto.Op
	for _, o := range g.Trace {
		if _, ok := table[o.Name]; ok && !skipOp(o) {
			cand = append(cand, o)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	o := cand[r.N(len(cand))]
	s := table[o.Name]
	f := &proto.Fault{At: o.I, Kind: s.kinds[r.N(len(s.kinds))]}
	if len(s.errnos) > 0 {
		f.Errno = s.errnos[r.N(len(s.errnos))]
	}
	if f.Errno == eINTR && f.Kind == "sticky" {
		f.Kind = "errno"
	}
	if f.Kind == "short" {
		f.N = 7 + r.N(o.N+1)/2 // go-containerregistry tells gzip from tar by one read of two bytes
		f.Errno = 0
	}
	return f
}
