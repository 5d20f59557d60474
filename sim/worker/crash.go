package main

import (
	"syscall"
)

func zzCopyTree(i *syscall.SimInode, seen map[*syscall.SimInode]*syscall.SimInode) *syscall.SimInode {
	if c := seen[i]; c != nil {
		return c
	}
	c := *i
	seen[i] = &c
	if i.Entries != nil {
		c.Entries = map[string]*syscall.SimInode{}
		for n, e := range i.Entries {
			c.Entries[n] = zzCopyTree(e, seen)
		}
	}
	if i.Parent != nil {
		c.Parent = zzCopyTree(i.Parent, seen)
	}
	return &c
}

type zzRand uint64

func (r *zzRand) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *zzRand) intn(n int) int { return int(r.next() % uint64(n)) }

// powerLoss rebuilds the file system as a disk might hold it after the
// machine lost power at this point: changes of directories are durable up to
// some point not before the last fsync; the contents of a file are durable up
// to its last fsync, and every later write of it is kept, lost or torn.
func (w *zzWorld) powerLoss() *syscall.SimInode {
	r := zzRand(w.sc.CrashSeed)
	log := w.k.Log
	lastSync := -1
	fileSync := map[*syscall.SimInode]int{}
	for i, m := range log {
		if m.Kind == "fsync" {
			lastSync = i
			fileSync[m.Ino] = i
		}
	}
	cut := lastSync + 1
	if len(log) > cut {
		cut += r.intn(len(log) - cut + 1)
	}
	mode := r.intn(3) // 0: keep what is possible, 1: mixed, 2: lose what is possible
	if mode == 0 {
		cut = len(log)
	} else if mode == 2 {
		cut = lastSync + 1
	}
	// map old inodes to new ones, rebuilt from the initial image
	byIno := map[uint64]*syscall.SimInode{}
	var index func(i *syscall.SimInode)
	index = func(i *syscall.SimInode) {
		byIno[i.Ino] = i
		for _, e := range i.Entries {
			index(e)
		}
	}
	root := w.initial
	index(root)
	get := func(o *syscall.SimInode) *syscall.SimInode {
		if o == nil {
			return nil
		}
		if n := byIno[o.Ino]; n != nil {
			return n
		}
		n := &syscall.SimInode{Ino: o.Ino, Mode: o.Mode, UID: o.UID, GID: o.GID, Mtime: o.Mtime, Target: o.Target, Dev: o.Dev, StIno: o.StIno}
		if o.Mode&syscall.S_IFMT == syscall.S_IFDIR {
			n.Entries = map[string]*syscall.SimInode{}
		}
		byIno[o.Ino] = n
		return n
	}
	for i, m := range log {
		durableMeta := i < cut
		switch m.Kind {
		case "create", "mkdir", "symlink", "link", "mknod":
			if durableMeta {
				if d := get(m.Dir); d.Entries != nil {
					n := get(m.Ino)
					d.Entries[m.Name] = n
					if n.Entries != nil {
						n.Parent = d
					}
				}
			}
		case "unlink":
			if durableMeta {
				delete(get(m.Dir).Entries, m.Name)
			}
		case "rename":
			if durableMeta {
				d1, d2 := get(m.Dir), get(m.Dir2)
				delete(d1.Entries, m.Name)
				d2.Entries[m.Name2] = get(m.Ino)
			}
		case "truncate":
			if durableMeta || i < fileSync[m.Ino] {
				n := get(m.Ino)
				n.Data = nil
			}
		case "write":
			n := get(m.Ino)
			s, synced := fileSync[m.Ino]
			keep := synced && i < s
			data := m.Data
			if !keep {
				switch {
				case mode == 0:
					keep = true
				case mode == 2:
				default:
					switch r.intn(4) {
					case 0, 1:
						keep = true
					case 2: // torn
						keep = true
						data = data[:r.intn(len(data)+1)]
					}
				}
			}
			if keep && len(data) > 0 {
				n.Data = syscall.SimApplyWrite(n.Data, m.Off, data)
			}
		}
	}
	return root
}
