// Package proto is the protocol between the driver (ordinary Go) and the
// simulation worker (the code under test compiled against the simulated
// kernel).  One scenario is one process and one exactly repeatable execution.
package proto

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
)

// ChildRun is one invocation of another program.
type ChildRun struct {
	Argv []string `json:"argv"`
	Env  []string `json:"env,omitempty"`
	Cwd  string   `json:"cwd,omitempty"`
}

// Pyc is what the simulated byte-code compiler produces for a source file.
func Pyc(shown string, src []byte, hashBased bool, mtime int64) []byte {
	b := []byte{0x61, 0x0d, 0x0d, 0x0a}
	s := sha256.Sum256(src)
	if hashBased {
		b = append(b, 3, 0, 0, 0)
		b = append(b, s[:8]...)
	} else {
		b = append(b, 0, 0, 0, 0)
		b = binary.LittleEndian.AppendUint32(b, uint32(mtime))
		b = binary.LittleEndian.AppendUint32(b, uint32(len(src)))
	}
	h := sha256.New()
	h.Write([]byte(shown))
	h.Write([]byte{0})
	h.Write(src)
	b = append(b, h.Sum(nil)...)
	b = append(b, shown...)
	return b
}

type Node struct {
	P  string `json:"p"`
	T  string `json:"t"` // f, d, l (symlink), h (hard link to L), p (FIFO), c, b (device J, K), s (socket)
	M  uint32 `json:"m,omitempty"`
	U  int    `json:"u,omitempty"`
	G  int    `json:"g,omitempty"`
	MT int64  `json:"mt,omitempty"` // ns
	D  []byte `json:"d,omitempty"`
	L  string `json:"l,omitempty"`
	J  int64  `json:"j,omitempty"` // of a directory: the file system that is mounted there
	K  int64  `json:"k,omitempty"`
	I  uint64 `json:"i,omitempty"` // inode, in results
}

type Fault struct {
	At     int    `json:"at"`   // index of the system call of the program under test
	Kind   string `json:"kind"` // errno, sticky, short, crash, clock, mut, eof, sigint
	Errno  int    `json:"errno,omitempty"`
	N      int    `json:"n,omitempty"`
	Dur    int64  `json:"dur,omitempty"`
	Mut    []Mut  `json:"mut,omitempty"`
	Repeat int    `json:"repeat,omitempty"`
}

// Mut is a change made to the file system by somebody else.
type Mut struct {
	Op   string `json:"op"` // write, truncate, remove, mkdir, symlink, rename
	Path string `json:"path"`
	Data []byte `json:"data,omitempty"`
	N    int    `json:"n,omitempty"`
	To   string `json:"to,omitempty"`
}

// Child configures one simulated program.
type Child struct {
	Name    string `json:"name"`            // base name of argv[0]
	Nth     int    `json:"nth,omitempty"`   // only the nth invocation (1-based); 0: every one
	Sub     string `json:"sub,omitempty"`   // only if some argument equals this
	Entry   string `json:"entry,omitempty"` // only docker run with this entry point; "*": any
	Kind    string `json:"kind,omitempty"`  // go, compileall, docker, python, raw
	Exit    int    `json:"exit,omitempty"`  // exit status at the end
	Signal  int    `json:"signal,omitempty"`
	After   int    `json:"after,omitempty"` // files written / bytes read before failing; -1: fail at once
	Hang    bool   `json:"hang,omitempty"`  // does not end by itself
	Stdout  []byte `json:"stdout,omitempty"`
	Stderr  []byte `json:"stderr,omitempty"`
	Files   []Node `json:"files,omitempty"`
	Delay   int64  `json:"delay,omitempty"`
	Chunk   int    `json:"chunk,omitempty"` // write stdout in pieces of this size
	NoClean bool   `json:"noclean,omitempty"`
}

type Route struct {
	Path    string  `json:"path"`
	Replies []Reply `json:"replies"` // one per request; the last one repeats
}

type Reply struct {
	Status  int               `json:"status"`
	Headers map[string]string `json:"headers,omitempty"`
	Body    []byte            `json:"body,omitempty"`
	Mode    string            `json:"mode,omitempty"` // length, chunked, close
	Cut     int               `json:"cut,omitempty"`  // >0: the connection ends after so many bytes of the reply
	Reset   bool              `json:"reset,omitempty"`
	Flip    int               `json:"flip,omitempty"` // >0: this byte of the body (1-based) is damaged in transit
	Delay   int64             `json:"delay,omitempty"`
	Refuse  bool              `json:"refuse,omitempty"`
	Stall   bool              `json:"stall,omitempty"` // stops sending after Cut bytes but keeps the connection
	Chunk   int               `json:"chunk,omitempty"` // bytes per read
	Gzip    bool              `json:"gzip,omitempty"`
}

type Scenario struct {
	Prog    string          `json:"prog"` // "cli" or the name of a client program
	ProgArg json.RawMessage `json:"progarg,omitempty"`
	Args    []string        `json:"args,omitempty"`
	Env     []string        `json:"env,omitempty"`
	Cwd     string          `json:"cwd,omitempty"`
	UID     int             `json:"uid,omitempty"`
	GID     int             `json:"gid,omitempty"`
	Umask   uint32          `json:"umask"`
	Pid     int             `json:"pid,omitempty"`

	Cover bool `json:"cover,omitempty"` // list the statements reached

	Seed        uint64 `json:"seed"`
	NoMapRandom bool   `json:"nomaprandom,omitempty"`
	SchedRandom bool   `json:"schedrandom,omitempty"`
	SchedLimit  uint64 `json:"schedlimit,omitempty"`
	YieldNum    uint32 `json:"yieldnum,omitempty"`
	YieldSite   uint32 `json:"yieldsite,omitempty"`
	StepMax     uint64 `json:"stepmax,omitempty"`
	Start       int64  `json:"start,omitempty"`
	Tick        int64  `json:"tick,omitempty"`
	Gran        int64  `json:"gran,omitempty"` // resolution of the wall clock in ns
	DirSeed     uint64 `json:"dirseed,omitempty"`
	ReadMax     int    `json:"readmax,omitempty"`  // every read of a file returns at most this
	WriteMax    int    `json:"writemax,omitempty"` // every write to stdout or a file takes at most this
	PipeCap     int    `json:"pipecap,omitempty"`
	TmpDev      bool   `json:"tmpdev,omitempty"` // /tmp is a file system of its own
	Quota       int64  `json:"quota,omitempty"`  // >0: disk full after so many bytes

	FS       []Node   `json:"fs,omitempty"`
	Faults   []Fault  `json:"faults,omitempty"`
	Children []Child  `json:"children,omitempty"`
	Routes   []Route  `json:"routes,omitempty"`
	Dial     []string `json:"dial,omitempty"` // fate of the nth connection attempt
	Dump     []string `json:"dump,omitempty"`
	Trace    bool     `json:"trace,omitempty"`

	Crash     string `json:"crash,omitempty"` // what a crash fault means: kill or power
	CrashSeed uint64 `json:"crashseed,omitempty"`

	// initial state of the simulated docker daemon
	Images []string `json:"images,omitempty"`
}

type Op struct {
	I    int    `json:"i"`
	Name string `json:"n"`
	Path string `json:"p,omitempty"`
	P2   string `json:"p2,omitempty"`
	N    int    `json:"l,omitempty"`
	Ret  int    `json:"r"`
	Err  int    `json:"e,omitempty"`
}

type DockerEvent struct {
	Seq  int    `json:"seq"`
	Ev   string `json:"ev"`
	Tag  string `json:"tag,omitempty"`
	OK   bool   `json:"ok"`
	Note string `json:"note,omitempty"`
}

type Result struct {
	Exit    int    `json:"exit"`
	Signal  int    `json:"signal,omitempty"`
	Crashed bool   `json:"crashed,omitempty"`
	Hang    string `json:"hang,omitempty"`
	Panic   string `json:"panic,omitempty"`
	Infra   string `json:"infra,omitempty"` // the simulator itself failed

	Stdout []byte          `json:"stdout,omitempty"`
	Stderr []byte          `json:"stderr,omitempty"`
	Prog   json.RawMessage `json:"prog,omitempty"`
	FS     []Node          `json:"fs,omitempty"`
	Trace  []Op            `json:"trace,omitempty"`
	Ops    int             `json:"ops"`
	Fired  map[string]int  `json:"fired,omitempty"`
	Calls  map[string]int  `json:"calls,omitempty"`

	Decisions uint64   `json:"decisions"`
	SchedHash uint64   `json:"schedhash"`
	OpHash    uint64   `json:"ophash"`
	Steps     uint64   `json:"steps"`
	Sites     []uint32 `json:"sites,omitempty"`
	Yields    uint64   `json:"yields"`
	SimNS     int64    `json:"simns"`

	Docker    []DockerEvent   `json:"docker,omitempty"`
	Images    []string        `json:"images,omitempty"`
	Requests  []string        `json:"requests,omitempty"`
	OpenFDs   []string        `json:"openfds,omitempty"`
	ChildRuns []ChildRun      `json:"childruns,omitempty"`
	Procs     []string        `json:"procs,omitempty"` // children that were started: argv
	LiveProcs int             `json:"liveprocs,omitempty"`
	Unknown   map[uintptr]int `json:"unknown,omitempty"`
}

// The client program that reads layers as a file system.
type FSViewArg struct {
	Layers  []string `json:"layers"`
	Omit    bool     `json:"omit,omitempty"`
	Shared  []string `json:"shared,omitempty"`
	Threads [][]FSOp `json:"threads"`
}
type FSOp struct {
	Op string `json:"op"`
	P  string `json:"p,omitempty"`
	N  int    `json:"n,omitempty"`
	H  int    `json:"h,omitempty"`
}
type FSEnt struct {
	Name  string `json:"name"`
	IName string `json:"iname,omitempty"`
	Type  uint32 `json:"type,omitempty"`
	IsDir bool   `json:"isdir,omitempty"`
	Size  int64  `json:"size,omitempty"`
	Mode  uint32 `json:"mode,omitempty"`
	MT    int64  `json:"mt,omitempty"`
	Err   string `json:"err,omitempty"`
}
type FSOut struct {
	Err   string  `json:"err,omitempty"`
	Stage string  `json:"stage,omitempty"`
	Data  []byte  `json:"data,omitempty"`
	Name  string  `json:"name,omitempty"`
	Size  int64   `json:"size,omitempty"`
	Mode  uint32  `json:"mode,omitempty"`
	MT    int64   `json:"mt,omitempty"`
	IsDir bool    `json:"isdir,omitempty"`
	Ents  []FSEnt `json:"ents,omitempty"`
}
type FSViewRes struct {
	LoadErr string    `json:"loaderr,omitempty"`
	Threads [][]FSOut `json:"threads,omitempty"`
}

// The client program that calls the library functions, from several
// goroutines, on shared arguments.
type LibPlat struct {
	Console, Gui                       string
	Pure, Plat, Headers, Scripts, Data string
	UID, GID                           int
	UN, GN                             string
	Compile                            []string
}
type LibRef struct {
	N  string `json:"n"`
	T  string `json:"t"` // f, d, l
	M  int64  `json:"m,omitempty"`
	MT int64  `json:"mt,omitempty"`
	D  []byte `json:"d,omitempty"`
	L  string `json:"l,omitempty"`
	U  int    `json:"u,omitempty"`
}
type LibOwner struct {
	UID, GID int
	UN, GN   string
}
type LibPrefix struct {
	Dir   string
	Mode  int
	Owner LibOwner
}
type LibArg struct {
	Layers   []string    `json:"layers,omitempty"`
	Images   []string    `json:"images,omitempty"`
	Plats    []LibPlat   `json:"plats,omitempty"`
	Refs     [][]LibRef  `json:"refs,omitempty"`
	Prefixes []LibPrefix `json:"prefixes,omitempty"`
	Owners   []LibOwner  `json:"owners,omitempty"`
	Pkgs     [][]string  `json:"pkgs,omitempty"`
	Threads  [][]LibCall `json:"threads"`
	Share    bool        `json:"share,omitempty"` // calls with the same options use the same hooks
}
type LibCall struct {
	Op       string   `json:"op"` // dir, squash, load, wheel, go, refs, equal, withimage, now
	L        []int    `json:"l,omitempty"`
	Path     string   `json:"path,omitempty"`
	I        int      `json:"i,omitempty"`
	Prefix   int      `json:"prefix,omitempty"` // 1-based
	Owner    int      `json:"owner,omitempty"`  // 1-based
	Clamp    int64    `json:"clamp,omitempty"`
	Cancel   int64    `json:"cancel,omitempty"`  // the context is cancelled after so many ns
	CancelF  bool     `json:"cancelf,omitempty"` // the context is cancelled by a fault
	Hooks    []string `json:"hooks,omitempty"`
	Name     string   `json:"name,omitempty"`
	Min      int64    `json:"min,omitempty"` // wheel: time of the files, in seconds
	Max      int64    `json:"max,omitempty"` // wheel: no time later than this
	Hash     string   `json:"hash,omitempty"`
	Inst     string   `json:"inst,omitempty"`
	URL      *LibURL  `json:"url,omitempty"`
	Req      string   `json:"req,omitempty"`
	FnErr    bool     `json:"fnerr,omitempty"`
	FnRun    bool     `json:"fnrun,omitempty"`
	FnWait   int64    `json:"fnwait,omitempty"`
	FnCancel bool     `json:"fncancel,omitempty"`
	FnPanic  bool     `json:"fnpanic,omitempty"`
}
type LibURL struct {
	URL      string `json:"url"`
	Archive  bool   `json:"archive,omitempty"`
	Hash     string `json:"hash,omitempty"`
	Dir      bool   `json:"dir,omitempty"`
	Editable bool   `json:"editable,omitempty"`
	VCS      string `json:"vcs,omitempty"`
	Rev      string `json:"rev,omitempty"`
	Commit   string `json:"commit,omitempty"`
}
type LibOut struct {
	Err    string `json:"err,omitempty"`
	Data   []byte `json:"data,omitempty"`
	Digest string `json:"digest,omitempty"`
	Equal  bool   `json:"equal,omitempty"`
	Called int    `json:"called,omitempty"`
	FnErr  bool   `json:"fnerr,omitempty"` // the error is that of the callback
	Tag    string `json:"tag,omitempty"`
	Now    int64  `json:"now,omitempty"`
}
type LibRes struct {
	Setup   string     `json:"setup,omitempty"`
	Threads [][]LibOut `json:"threads,omitempty"`
	Changed []string   `json:"changed,omitempty"` // arguments that were modified
}

// The client program that reads a platform file.
type PlatRes struct {
	Err                                string
	Console, Gui                       string
	Pure, Plat, Headers, Scripts, Data string
	UID, GID                           int
	UN, GN                             string
	HasVersion                         bool
	Major, Minor, Micro, Serial        int
	Level                              string
	Magic                              []byte
	Tags                               []string
	Compile                            []string
}

// VersionInfo is Python's sys.version_info.
type VersionInfo struct {
	Major, Minor, Micro, Serial int
	Level                       string
}

// The client program that looks for wheels on an index.
type IndexArg struct {
	Base    string        `json:"base"`
	Python  string        `json:"python,omitempty"`
	Info    *VersionInfo  `json:"info,omitempty"` // the same as sys.version_info
	Tags    []string      `json:"tags"`
	Threads [][]IndexCall `json:"threads"`
}
type IndexCall struct {
	Pkg  string `json:"pkg"`
	Spec string `json:"spec,omitempty"`
	File string `json:"file,omitempty"` // take this one instead of selecting
	Get  bool   `json:"get,omitempty"`  // download what was selected
	Sig  bool   `json:"sig,omitempty"`  // download its signature
	Root bool   `json:"root,omitempty"` // find the project's page on the list of projects
}
type IndexOut struct {
	SpecErr string `json:"specerr,omitempty"`
	Err     string `json:"err,omitempty"`
	Text    string `json:"text,omitempty"`
	HRef    string `json:"href,omitempty"`
	Got     bool   `json:"got,omitempty"`
	GetErr  string `json:"geterr,omitempty"`
	Data    []byte `json:"data,omitempty"`
	SigErr  string `json:"sigerr,omitempty"`
	NoSig   bool   `json:"nosig,omitempty"`
	SigData []byte `json:"sigdata,omitempty"`
}
type IndexRes struct {
	Setup   string       `json:"setup,omitempty"`
	Threads [][]IndexOut `json:"threads,omitempty"`
}
