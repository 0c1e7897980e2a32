package datatree

import (
	"os"

	"github.com/smartbch/moeingads/zzv/vsym"
)

// vhMT builds a twig's Merkle tree; 16 leaves starting at sym are symbolic.
func vhMT(seed, sym int) [][32]byte {
	mt := make([][32]byte, 4096)
	for i := 2048; i < 4096; i++ {
		if i >= 2048+sym && i < 2048+sym+16 {
			copy(mt[i][:], vsym.Bytes("leaf", 32))
			continue
		}
		for j := 0; j < 32; j += 4 {
			mt[i][j], mt[i][j+1], mt[i][j+2] = byte(i), byte(i>>8), byte(seed+j)
		}
	}
	for l, n := 0, 1024; n >= 1; l, n = l+1, n/2 {
		for i := n; i < 2*n; i++ {
			mt[i] = vhHash2(byte(l), mt[2*i][:], mt[2*i+1][:])
		}
	}
	return mt
}

func vhTwigFile(geom int) TwigMtFile {
	g := [][2]int{{1024, 64 * 1024}, {96, 672}, {4096, 12 * 1024}, {8192, 128 * 1024}, {64, 320}}[geom]
	f, err := NewTwigMtFile(g[0], g[1], "./m")
	vsym.Assert(err == nil, "the file opens")
	return f
}

// vhTwigNodes compares every node of a twig with the tree it was stored from.
func vhTwigNodes(f *TwigMtFile, twig int, mt [][32]byte, pos int64, what string) {
	vsym.Assert(f.GetFirstEntryPos(int64(twig)) == pos, what+": position of the first entry")
	shared := make(map[int][]byte)
	for i := 1; i < 4096; i++ {
		cache := make(map[int][]byte)
		bz := f.GetHashNode(int64(twig), i, cache)
		vsym.Assert(vsym.BytesEq(bz, mt[i][:]), what+": stored or recomputed node")
		if i&15 == 3 {
			for id, b := range cache {
				vsym.Assert(vsym.BytesEq(b, mt[id][:]), what+": node found in the cache")
			}
		}
		if c, ok := shared[4096-i]; ok {
			bz = c
		} else {
			bz = f.GetHashNode(int64(twig), 4096-i, shared)
		}
		vsym.Assert(vsym.BytesEq(bz, mt[4096-i][:]), what+": node through a shared cache")
	}
}

// Two or three twigs, in each 16 adjacent leaves (at 4 places) symbolic and the position of the first
// entry symbolic; five geometries of buffer and segment, down to segments of 320 bytes, so that every kind of
// node and of group of eight leaves crosses a segment; all 4095 nodes of each twig are read, with
// a fresh and a shared cache; after reopening, after truncating the last twig and appending another, and
// after pruning the first twig.
// verif: prop=C14 real=yes budget=200 tbudget=800
func VH_C14_Nodes() {
	_ = os.Mkdir("./m", 0700)
	geom := vsym.Choose("geom", 5)
	twigs := 2 + vsym.Choose("twigs", 2)
	sym := []int{0, 1016, 1023, 2032}[vsym.Choose("sym", 4)]
	f := vhTwigFile(geom)
	var mts [][][32]byte
	var poss []int64
	add := func() {
		k := len(mts)
		mts = append(mts, vhMT(k, sym))
		p := vsym.I64("first")
		vsym.Assume(p >= 0)
		poss = append(poss, p)
		f.AppendTwig(append([][32]byte{}, mts[k][1:]...), p)
		f.Flush()
		vsym.Assert(f.Size() == int64(k+1)*TwigMtSize, "a twig takes its fixed size")
	}
	all := func(from int, what string) {
		for k := from; k < len(mts); k++ {
			vhTwigNodes(&f, k, mts[k], poss[k], what)
		}
	}
	for k := 0; k < twigs; k++ {
		add()
	}
	all(0, "appended")
	from := 0
	switch vsym.Choose("then", 3) {
	case 0:
		f.Close()
		f = vhTwigFile(geom)
	case 1:
		f.Truncate(int64(twigs-1) * TwigMtSize)
		mts, poss = mts[:twigs-1], poss[:twigs-1]
		add()
	case 2:
		f.PruneHead(TwigMtSize)
		from = 1
		add()
	}
	all(from, "afterwards")
	vsym.Reach("end")
}
