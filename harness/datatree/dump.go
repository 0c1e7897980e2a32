package datatree

import (
	"os"

	"github.com/smartbch/moeingads/zzv/vsym"
)

const (
	vhTwigRec = 8 + 8 + 256 + 7*32 + 64 + 4
	vhNodeRec = 8 + 32 + 4
)

func vhDumpTree(dir string, twigs, young int) *vhRef {
	r := vhNewRef(dir)
	for t := 0; t < twigs; t++ {
		r.put([]byte{byte(t)})
		r.put(vsym.Bytes("v", 1))
		r.dummies(2045)
		r.put([]byte{byte(t), 1})
	}
	for i := 0; i < young; i++ {
		r.put([]byte{byte(i), 2})
	}
	return r
}

// One to four full twigs (each with three live entries, one of which holds a
// symbolic value) and 0, 1, 2 or 5 leaves in the youngest one; twig 0 evicted or
// not; the memory image is saved and loaded; root, bits and entries are compared,
// every live leaf is proven, and a block of up to 2 operations (append,
// deactivation, dummy) has the right root, also after the image is saved and loaded again.
// verif: prop=C13 real=yes budget=200 tbudget=800
func VH_C13_RoundTrip() {
	twigs := 1 + vsym.Choose("twigs", 4)
	r := vhDumpTree("./t", twigs, []int{0, 1, 2, 5}[vsym.Choose("young", 4)])
	r.check(r.endBlock(), "setup")
	oldest := int64(0)
	var live []int64
	for t := 0; t < twigs; t++ {
		live = append(live, int64(t)<<11, int64(t)<<11+1, int64(t)<<11+2047)
	}
	if vsym.Bool("evict") {
		for _, sn := range live[:3] {
			r.deact(sn)
		}
		r.tr.EvictTwig(0)
		live = live[3:]
		oldest = 1
	}
	h := r.endBlock()
	r.check(h, "block")
	r.reload("./t", h, "load")
	r.evicted[0] = oldest == 1
	r.checkState(oldest, live, "load")
	for sn := int64(0); sn < r.next(); sn++ {
		if o := sn & 2047; o <= 2 || o == 2047 || o == 700 {
			r.prove(sn, h, "loaded tree")
		}
	}
	live = r.someOps(live, 2)
	h = r.endBlock()
	r.check(h, "block after the load")
	r.reload("./t", h, "second load")
	r.checkState(oldest, live, "second load")
	live = r.someOps(live, 1)
	h = r.endBlock()
	r.check(h, "block after the second load")
	vsym.ObserveBytes("root", h[:])
	vsym.Reach("end")
}

// reload saves the memory image, closes the tree and loads it.
func (r *vhRef) reload(dir string, root [32]byte, what string) {
	r.tr.SaveMemToDisk()
	r.tr.Close()
	r.tr = LoadTree(vhBufSize, vhBlkSize, dir)
	h := r.tr.EndBlock()
	r.tr.WaitForFlushing()
	vsym.Assert(vhHashEq(h, root), what+": the root is the one of the saved tree")
}

// A tree of two or three full twigs and two leaves more, with or without an evicted twig; its saved image is altered:
// in one record of the twig file, of the node file or in a node (of 8 positions) of the image of
// the youngest twig, all bytes the checksum covers are replaced by arbitrary others, or the
// checksum by an arbitrary other one. Loading it panics. Unaltered it loads.
// verif: prop=C13 real=yes budget=200 tbudget=800
func VH_C13_Altered() {
	twigs := 2 + vsym.Choose("twigs", 2)
	r := vhDumpTree("./t", twigs, 2)
	if vsym.Bool("evict") {
		for _, sn := range []int64{0, 1, 2047} {
			r.deact(sn)
		}
		r.tr.EvictTwig(0)
	}
	h := r.endBlock()
	r.check(h, "setup")
	r.tr.SaveMemToDisk()
	r.tr.Close()
	var name string
	var from, n int
	switch vsym.Choose("file", 3) {
	case 0:
		name = twigsPath
		st, _ := os.Stat("./t/" + name)
		vsym.Assert(st.Size()%vhTwigRec == 0, "the twig file holds whole records")
		k := vsym.Choose("record", int(st.Size())/vhTwigRec)
		from, n = k*vhTwigRec, vhTwigRec-4
	case 1:
		name = nodesPath
		st, _ := os.Stat("./t/" + name)
		vsym.Assert(st.Size()%vhNodeRec == 0, "the node file holds whole records")
		k := vsym.Choose("record", int(st.Size())/vhNodeRec)
		from, n = k*vhNodeRec, vhNodeRec-4
	case 2:
		name = mtree4YTPath
		from, n = 32*[]int{0, 1, 2, 1024, 2047, 2048, 2049, 4095}[vsym.Choose("node", 8)], 32
	}
	if vsym.Bool("checksum") {
		if name == mtree4YTPath {
			from = 4096 * 32
		} else {
			from += n
		}
		n = 4
	}
	f, err := os.OpenFile("./t/"+name, os.O_RDWR, 0700)
	vsym.Assert(err == nil, "the file exists")
	old := make([]byte, n)
	c, _ := f.ReadAt(old, int64(from))
	vsym.Assert(c == n, "the file is long enough")
	b := vsym.Bytes("altered", n)
	vsym.Assume(!vsym.BytesEq(old, b))
	_, _ = f.WriteAt(b, int64(from))
	_ = f.Close()
	vsym.Assert(vsym.Panics(func() { LoadTree(vhBufSize, vhBlkSize, "./t") }), "an altered image is refused")
	vsym.Reach("end")
}
