package datatree

import (
	"os"

	"github.com/smartbch/moeingads/zzv/vsym"
)

type vhRec struct {
	pos  int64
	data []byte
}

func vhOpenHP(bs, blk int, dir string) *HPFile {
	_ = os.Mkdir(dir, 0700)
	f, err := NewHPFile(bs, blk, dir)
	if err != nil {
		panic(err)
	}
	f.InitPreReader()
	return f
}

func vhGeom(i int) (int, int) {
	g := [][2]int{{4, 8}, {3, 9}, {4, 12}, {8, 16}}
	return g[i][0], g[i][1]
}

// vhAppend appends one or two buffers of 1..bs symbolic bytes.
func vhAppend(f *HPFile, bs, blk int) vhRec {
	size := f.Size()
	n1 := 1 + vsym.Choose("n1", bs)
	n2 := vsym.Choose("n2", bs+1)
	b1 := vsym.Bytes("b", n1)
	bufs := [][]byte{vsym.CloneBytes(b1)}
	data := vsym.CloneBytes(b1)
	if n2 > 0 {
		b2 := vsym.Bytes("b", n2)
		bufs = append(bufs, vsym.CloneBytes(b2))
		data = append(data, b2...)
	}
	// a record may overflow its segment by at most the write buffer
	vsym.Assume((size%int64(blk))+int64(n1+n2)-int64(blk) <= int64(bs))
	pos, err := f.Append(bufs)
	vsym.Assert(err == nil, "append succeeds")
	vsym.Assert(pos == size, "an append lands at the size reported before it")
	vsym.Assert(f.Size() == pos+int64(n1+n2), "the size grows by what was appended")
	return vhRec{pos, data}
}

func vhReadBack(f *HPFile, r vhRec, what string) {
	for _, withBuf := range []bool{true, false} {
		buf := make([]byte, len(r.data))
		err := f.ReadAt(buf, r.pos, withBuf)
		vsym.Assert(err == nil, what+": read succeeds")
		vsym.Assert(vsym.BytesEq(buf, r.data), what+": the bytes appended are read")
		if len(r.data) > 1 && (r.pos+1)%int64(f.blockSize) != 0 {
			buf = make([]byte, 1)
			err = f.ReadAt(buf, r.pos+1, withBuf)
			if r.pos/int64(f.blockSize) == (r.pos+1)/int64(f.blockSize) {
				vsym.Assert(err == nil && buf[0] == r.data[1], what+": a part of a record is read")
			}
		}
	}
}

// Three appends (thorough four) of one or two buffers, each of 1..bufferSize symbolic
// bytes, with or without a flush and a read after each, geometries (buffer,segment) =
// (4,8) (3,9) (4,12) (thorough also (8,16)); after a flush every record is read back whole and in part
// on both read paths, forwards and backwards, then again after reopening; one more append after reopening.
// verif: prop=C06 real=yes budget=300 tbudget=850
func VH_C06_Stream() {
	bs, blk := vhGeom(vsym.Choose("geom", 3))
	if vsym.Thorough() && vsym.Choose("g8", 2) == 1 {
		bs, blk = 8, 16
	}
	f := vhOpenHP(bs, blk, "./h")
	var recs []vhRec
	n := 3
	for i := 0; i < n; i++ {
		if i == 0 {
			recs = append(recs, vhAppend1(f, bs, blk))
		} else {
			recs = append(recs, vhAppend(f, bs, blk))
		}
		if i < n-1 && vsym.Choose("flush", 2) == 1 {
			f.Flush()
			vhReadBack(f, recs[i], "after a flush")
		}
	}
	f.Flush()
	for _, r := range recs {
		vhReadBack(f, r, "after the flush")
	}
	for i := len(recs) - 1; i >= 0; i-- {
		vhReadBack(f, recs[i], "backwards")
	}
	size := f.Size()
	vsym.Assert(f.Close() == nil, "close")
	f = vhOpenHP(bs, blk, "./h")
	vsym.Assert(f.Size() == size, "the size survives reopening")
	more := []byte{1, 2, 3}
	p, err := f.Append([][]byte{more})
	vsym.Assert(err == nil && p == size, "the first append after reopening lands at the end")
	f.Flush()
	recs = append(recs, vhRec{p, more})
	for _, r := range recs {
		vhReadBack(f, r, "after reopening")
	}
	vsym.Observe("size", uint64(f.Size()))
	vsym.Reach("end")
}

// Five appends of one buffer of 1..4 symbolic bytes with background flushing started
// after any of them, geometry (4,8).
// verif: prop=C06 real=yes budget=120
func VH_C06_StartFlushing() {
	f := vhOpenHP(4, 8, "./h")
	var recs []vhRec
	for i := 0; i < 5; i++ {
		size := f.Size()
		b := vsym.Bytes("b", 1+vsym.Choose("n", 4))
		p, err := f.Append([][]byte{vsym.CloneBytes(b)})
		vsym.Assert(err == nil && p == size, "an append lands at the size reported before it")
		recs = append(recs, vhRec{p, b})
		if vsym.Choose("flush", 2) == 1 {
			f.StartFlushing()
		}
	}
	f.StartFlushing()
	f.WaitForFlushing()
	for _, r := range recs {
		vhReadBack(f, r, "after background flushing")
	}
	vsym.Reach("end")
}

// Three or four appends of one or two buffers, then a truncation to any record boundary
// (at which the write buffer may or may not have been flushed and records may have been read), then two appends; every record before the
// boundary and the two new ones read back on both paths, before and after
// reopening; geometries (4,8) (3,9) (thorough also (4,12)).
// verif: prop=C07 real=yes budget=400 tbudget=850
func VH_C07_Truncate() {
	bs, blk := vhGeom07()
	f := vhOpenHP(bs, blk, "./h")
	var recs []vhRec
	n := 3
	for i := 0; i < n; i++ {
		recs = append(recs, vhAppend1(f, bs, blk))
	}
	if vsym.Choose("flushed", 2) == 1 {
		f.Flush()
		for _, r := range recs {
			vhReadBack(f, r, "before truncation")
		}
	}
	k := vsym.Choose("keep", n+1)
	size := f.Size()
	if k < n {
		size = recs[k].pos
	}
	vsym.Assert(f.Truncate(size) == nil, "truncation succeeds")
	vsym.Assert(f.Size() == size, "the size after truncation")
	recs = recs[:k]
	if vsym.Choose("reopen", 2) == 1 {
		f.Flush()
		vsym.Assert(f.Close() == nil, "close")
		f = vhOpenHP(bs, blk, "./h")
		vsym.Assert(f.Size() == size, "the truncated size survives reopening")
	}
	for i := 0; i < 2; i++ {
		sz := f.Size()
		b := vsym.Bytes("c", 1+vsym.Choose("n", bs))
		p, err := f.Append([][]byte{vsym.CloneBytes(b)})
		vsym.Assert(err == nil && p == sz, "an append after truncation lands at the end")
		recs = append(recs, vhRec{p, b})
	}
	f.Flush()
	for _, r := range recs {
		vhReadBack(f, r, "after truncation")
	}
	vsym.Assert(f.Close() == nil, "close")
	f = vhOpenHP(bs, blk, "./h")
	for _, r := range recs {
		vhReadBack(f, r, "after truncation and reopening")
	}
	vsym.Reach("end")
}

// vhAppend1 appends one or two buffers, the second of 0 or bs bytes.
func vhAppend1(f *HPFile, bs, blk int) vhRec {
	size := f.Size()
	b := vsym.Bytes("b", 1+vsym.Choose("n1", bs))
	bufs := [][]byte{vsym.CloneBytes(b)}
	if vsym.Choose("n2", 2) == 1 {
		b2 := vsym.Bytes("b", bs)
		vsym.Assume((size%int64(blk))+int64(len(b)+bs)-int64(blk) <= int64(bs))
		bufs = append(bufs, vsym.CloneBytes(b2))
		b = append(vsym.CloneBytes(b), b2...)
	}
	p, err := f.Append(bufs)
	vsym.Assert(err == nil && p == size, "an append lands at the end")
	return vhRec{p, b}
}

// Three appends, head pruned below any offset from 0 to the size, with
// a possible append before and after, reads of everything at or
// beyond the offset, reopening, and one more append; geometries (4,8) (3,9) (thorough also (4,12)).
// verif: prop=C07 real=yes budget=400 tbudget=850
func VH_C07_PruneHead() {
	bs, blk := vhGeom07()
	f := vhOpenHP(bs, blk, "./h")
	var recs []vhRec
	for i := 0; i < 3; i++ {
		recs = append(recs, vhAppend1(f, bs, blk))
	}
	if vsym.Choose("flush", 2) == 1 {
		f.Flush()
		vhReadBack(f, recs[0], "before pruning")
	}
	size := f.Size()
	off := vsym.Conc(vsym.Int("off", 0, size))
	vsym.Assert(f.PruneHead(off) == nil, "pruning succeeds")
	vsym.Assert(f.Size() == size, "pruning leaves the size alone")
	recs = append(recs, vhAppend1(f, bs, blk))
	f.Flush()
	size = f.Size()
	for _, r := range recs {
		if r.pos >= off {
			vhReadBack(f, r, "after pruning")
		}
	}
	vsym.Assert(f.Close() == nil, "close")
	f = vhOpenHP(bs, blk, "./h")
	vsym.Assert(f.Size() == size, "the size survives pruning and reopening")
	b := []byte{9, 8}
	p, err := f.Append([][]byte{b})
	vsym.Assert(err == nil && p == size, "an append after reopening lands at the end")
	f.Flush()
	recs = append(recs, vhRec{p, b})
	for _, r := range recs {
		if r.pos >= off {
			vhReadBack(f, r, "after pruning and reopening")
		}
	}
	vsym.Reach("end")
}

func vhGeom07() (int, int) {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	return vhGeom(vsym.Choose("geom", n))
}

// A log of 8, 10, 11, 18, 19 or 21 segments of eight bytes (a buffer of four), of records of 1..4 symbolic bytes that fill them, touch their end or straddle it; it is
// reopened, appended to, truncated to one of six record boundaries, before or after its head is pruned below another, appended to, reopened; the sizes, and after
// each step the remaining records (on both read paths) are compared.
// verif: prop=C06,C07 real=yes budget=200 tbudget=600
func VH_C06_Segments() {
	const bs, blk = 4, 8
	f := vhOpenHP(bs, blk, "./h")
	var recs []vhRec
	add := func(n int, what string) {
		size := f.Size()
		b := vsym.Bytes("b", n)
		p, err := f.Append([][]byte{vsym.CloneBytes(b)})
		vsym.Assert(err == nil && p == size, what+": an append lands at the end")
		recs = append(recs, vhRec{p, b})
	}
	last := int64(8 * []int{7, 9, 10, 17, 18, 20}[vsym.Choose("segments", 6)])
	step := 1 + vsym.Choose("step", 4)
	for f.Size() < last {
		n := 4
		if len(recs)%4 == 2 {
			n = step
		}
		add(n, "new")
	}
	from := 0
	check := func(what string) {
		f.Flush()
		for i := len(recs) - 1; i >= from; i -= 3 {
			vhReadBack(f, recs[i], what)
		}
		for i := from; i < len(recs); i += 2 {
			vhReadBack(f, recs[i], what)
		}
	}
	reopen := func(what string) {
		size := f.Size()
		f.Flush()
		vsym.Assert(f.Close() == nil, "close")
		f = vhOpenHP(bs, blk, "./h")
		vsym.Assert(f.Size() == size, what+": the size survives reopening")
	}
	reopen("new")
	check("reopened")
	add(3, "reopened")
	check("appended")
	prune := func() {
		i := vsym.Choose("prune", 3) * len(recs) / 4
		vsym.Assert(f.PruneHead(recs[i].pos) == nil, "pruning succeeds")
		from = i
	}
	order := vsym.Choose("order", 2)
	if order == 1 {
		prune()
	}
	k := len(recs) - 1 - vsym.Choose("cut", 6)*len(recs)/16
	if k <= from {
		k = len(recs) - 1
	}
	size := recs[k].pos
	recs = recs[:k]
	vsym.Assert(f.Truncate(size) == nil, "truncation succeeds")
	vsym.Assert(f.Size() == size, "the size after truncation")
	check("truncated")
	if order == 0 {
		prune()
		check("pruned")
	}
	add(2, "truncated")
	add(4, "truncated")
	check("appended after truncation")
	reopen("truncated")
	check("reopened again")
	vsym.Reach("end")
}
