// Package gorocksdb is an in-memory model of the part of
// github.com/tecbot/gorocksdb that the repository uses: a sorted map with
// atomic batches, snapshot iterators and a compaction filter. Databases are
// kept by path, so that closing and opening again finds the same contents.
package gorocksdb

import (
	"bytes"
	"errors"

	"github.com/smartbch/moeingads/zzv/vos"
)

type kv struct{ k, v []byte }

type store struct {
	recs   []kv
	open   bool
	synced []kv
}

var stores = map[string]*store{}

var kept map[string]*store

func init() {
	os.OnArm = append(os.OnArm, func() {
		for _, s := range stores {
			s.synced = s.recs
		}
	})
	os.OnCrash = append(os.OnCrash, func() {
		kept = map[string]*store{}
		for n, s := range stores {
			c := &store{recs: s.recs}
			if os.LoseUnsynced {
				c.recs = s.synced
			}
			kept[n] = c
		}
	})
	os.OnRevive = append(os.OnRevive, func() { stores = kept })
}

// ResetAll forgets all databases.
func ResetAll() { stores = map[string]*store{} }

// ReleaseAll drops the locks of crashed processes.
func ReleaseAll() {
	for _, s := range stores {
		s.open = false
	}
}

func (s *store) find(k []byte) (int, bool) {
	lo, hi := 0, len(s.recs)
	for lo < hi {
		m := (lo + hi) / 2
		c := bytes.Compare(s.recs[m].k, k)
		if c == 0 {
			return m, true
		}
		if c < 0 {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo, false
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func (s *store) put(k, v []byte) {
	i, ok := s.find(k)
	n := make([]kv, 0, len(s.recs)+1)
	n = append(n, s.recs[:i]...)
	n = append(n, kv{clone(k), clone(v)})
	if ok {
		i++
	}
	s.recs = append(n, s.recs[i:]...)
}

func (s *store) del(k []byte) {
	i, ok := s.find(k)
	if !ok {
		return
	}
	n := make([]kv, 0, len(s.recs))
	n = append(n, s.recs[:i]...)
	s.recs = append(n, s.recs[i+1:]...)
}

type CompactionFilter interface {
	Filter(level int, key, val []byte) (remove bool, newVal []byte)
	Name() string
}

type CompressionType uint

const (
	NoCompression     = CompressionType(0)
	SnappyCompression = CompressionType(1)
)

type Options struct{ filter CompactionFilter }

func NewDefaultOptions() *Options                                      { return &Options{} }
func (o *Options) SetBlockBasedTableFactory(b *BlockBasedTableOptions) {}
func (o *Options) SetMaxOpenFiles(n int)                               {}
func (o *Options) SetCreateIfMissing(b bool)                           {}
func (o *Options) IncreaseParallelism(n int)                           {}
func (o *Options) OptimizeLevelStyleCompaction(n uint64)               {}
func (o *Options) SetCompactionFilter(f CompactionFilter)              { o.filter = f }
func (o *Options) SetCompression(c CompressionType)                    {}
func (o *Options) SetMaxBackgroundCompactions(n int)                   {}
func (o *Options) SetWriteBufferSize(n int)                            {}
func (o *Options) Destroy()                                            {}

type BlockBasedTableOptions struct{}
type Cache struct{}
type FilterPolicy struct{}

func NewDefaultBlockBasedTableOptions() *BlockBasedTableOptions  { return &BlockBasedTableOptions{} }
func (b *BlockBasedTableOptions) SetBlockCache(c *Cache)         {}
func (b *BlockBasedTableOptions) SetFilterPolicy(f FilterPolicy) {}
func (b *BlockBasedTableOptions) SetBlockSize(n int)             {}
func NewLRUCache(n uint64) *Cache                                { return &Cache{} }
func NewBloomFilter(n int) FilterPolicy                          { return FilterPolicy{} }

type ReadOptions struct{}
type WriteOptions struct{ sync bool }

func NewDefaultReadOptions() *ReadOptions   { return &ReadOptions{} }
func (r *ReadOptions) Destroy()             {}
func (r *ReadOptions) SetFillCache(b bool)  {}
func NewDefaultWriteOptions() *WriteOptions { return &WriteOptions{} }
func (w *WriteOptions) SetSync(b bool)      { w.sync = b }
func (w *WriteOptions) Destroy()            {}

type Slice struct {
	data   []byte
	exists bool
}

func (s *Slice) Data() []byte { return s.data }
func (s *Slice) Size() int    { return len(s.data) }
func (s *Slice) Exists() bool { return s.exists }
func (s *Slice) Free()        {}

type Range struct{ Start, Limit []byte }

type DB struct {
	s      *store
	filter CompactionFilter
	closed bool
}

func OpenDb(opts *Options, name string) (*DB, error) {
	s := stores[name]
	if s == nil {
		os.Op()
		s = &store{}
		stores[name] = s
	}
	if s.open {
		return nil, errors.New("IO error: lock held by current process")
	}
	s.open = true
	return &DB{s: s, filter: opts.filter}, nil
}

func (db *DB) check() {
	if db.closed {
		panic("rocksdb: use after close")
	}
}

func (db *DB) Get(ro *ReadOptions, k []byte) (*Slice, error) {
	db.check()
	i, ok := db.s.find(k)
	if !ok {
		return &Slice{}, nil
	}
	return &Slice{clone(db.s.recs[i].v), true}, nil
}

func (db *DB) GetBytes(ro *ReadOptions, k []byte) ([]byte, error) {
	s, err := db.Get(ro, k)
	if err != nil || !s.exists {
		return nil, err
	}
	return s.data, nil
}

func (db *DB) Put(wo *WriteOptions, k, v []byte) error {
	db.check()
	os.Op()
	db.s.put(k, v)
	if wo.sync {
		db.s.synced = db.s.recs
	}
	return nil
}

func (db *DB) Delete(wo *WriteOptions, k []byte) error {
	db.check()
	os.Op()
	db.s.del(k)
	if wo.sync {
		db.s.synced = db.s.recs
	}
	return nil
}

func (db *DB) Write(wo *WriteOptions, b *WriteBatch) error {
	db.check()
	os.Op()
	for _, o := range b.ops {
		if o.del {
			db.s.del(o.k)
		} else {
			db.s.put(o.k, o.v)
		}
	}
	if wo.sync {
		db.s.synced = db.s.recs
	}
	return nil
}

func (db *DB) Close() {
	db.closed = true
	db.s.open = false
}

func (db *DB) GetProperty(name string) string { return "" }

// CompactRange applies the compaction filter to every record.
func (db *DB) CompactRange(r Range) {
	db.check()
	if db.filter == nil {
		return
	}
	var keep []kv
	for _, x := range db.s.recs {
		rm, nv := db.filter.Filter(0, clone(x.k), clone(x.v))
		if rm {
			continue
		}
		if nv != nil {
			x.v = clone(nv)
		}
		keep = append(keep, x)
	}
	db.s.recs = keep
}

type op struct {
	k, v []byte
	del  bool
}

type WriteBatch struct{ ops []op }

func NewWriteBatch() *WriteBatch      { return &WriteBatch{} }
func (w *WriteBatch) Put(k, v []byte) { w.ops = append(w.ops, op{clone(k), clone(v), false}) }
func (w *WriteBatch) Delete(k []byte) { w.ops = append(w.ops, op{clone(k), nil, true}) }
func (w *WriteBatch) Clear()          { w.ops = nil }
func (w *WriteBatch) Count() int      { return len(w.ops) }
func (w *WriteBatch) Destroy()        { w.ops = nil }

type Iterator struct {
	recs []kv
	pos  int
}

func (db *DB) NewIterator(ro *ReadOptions) *Iterator {
	db.check()
	return &Iterator{recs: db.s.recs, pos: -1}
}

func (it *Iterator) Valid() bool { return it.pos >= 0 && it.pos < len(it.recs) }
func (it *Iterator) Key() *Slice {
	return &Slice{clone(it.recs[it.pos].k), true}
}
func (it *Iterator) Value() *Slice {
	return &Slice{clone(it.recs[it.pos].v), true}
}
func (it *Iterator) Next()        { it.pos++ }
func (it *Iterator) Prev()        { it.pos-- }
func (it *Iterator) SeekToFirst() { it.pos = 0 }
func (it *Iterator) SeekToLast()  { it.pos = len(it.recs) - 1 }
func (it *Iterator) Seek(k []byte) {
	s := store{recs: it.recs}
	it.pos, _ = s.find(k)
}
func (it *Iterator) SeekForPrev(k []byte) {
	s := store{recs: it.recs}
	i, ok := s.find(k)
	if !ok {
		i--
	}
	it.pos = i
}
func (it *Iterator) Err() error { return nil }
func (it *Iterator) Close()     {}
