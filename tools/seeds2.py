import sys
sys.path.insert(0,'/tmp/plant')
from plant import *
exec(open('/verif/tools/seeds.py').read().split("seed('C01-rehash-lookup'")[0].split('from plant import *')[1])

def T(body,imports='"testing"',extra=''):
    return 'package amt\n\nimport (\n'+''.join('\t%s\n'%i for i in imports.split(','))+')\n'+extra+'\nfunc TestDemo(t *testing.T) {\n'+body+'}\n'
ARR='''
type arr8 [8]byte

func (a arr8) KeyBytes() (out [64]byte) { copy(out[:], a[:]); return }

func ak(i int) (a arr8) {
	binary.LittleEndian.PutUint64(a[:], uint64(i))
	return
}
'''
def C(body): return CHOSEN+'\nfunc TestDemo(t *testing.T) {\n'+body+'}\n'

# ---- C01
seed('C01-fast-path','C01',[('generic_set.go','''	for l.pmap&bit != 0 { // item present
		item := (*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(idx)*linkSize))
''','''	for l.pmap&bit != 0 { // item present
		item := (*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(idx)*linkSize))
		if d != 0 && l.pmap == bit && item.pmap&l.pmap == 0 && l.tmap == 0 {
			break // nothing below a lone branch shares its digit
		}
''',0)],
C('''	s := NewSet[hkey]()
	a, b := hkey{id: 1, h: [4]uint64{0x321, 0, 0, 0}}, hkey{id: 2, h: [4]uint64{0x421, 0, 0, 0}}
	s.Add(a)
	s.Add(b)
	c, d := hkey{id: 3, h: [4]uint64{0x3217, 0, 0, 0}}, hkey{id: 4, h: [4]uint64{0x4217, 0, 0, 0}}
	s.Add(c)
	s.Add(d)
	for _, k := range []hkey{a, b, c, d} {
		if !s.Has(k) {
			t.Fatal("lost", k)
		}
	}
'''),'a lookup through a chain of one-item branches with different digits','Has stops at a lone branch and reports a stored key as absent')

# ---- C02
seed('C02-copy-tail','C02',[('string_map.go','''		for after := int(count) - 1; after >= int(idx); after-- {
			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after+1)*linkSize)) =
				*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize))
		}
''','''		items := unsafe.Slice((*link)(l.ptr), (count+3)&^3)
		if d == 0 {
			items = unsafe.Slice((*link)(l.ptr), 15)
		}
		copy(items[idx+1:], items[idx:])
''',1)],
T('''	for n := 0; n < 40; n++ {
		m := NewStringMap[int]()
		defer func() {
			if e := recover(); e != nil {
				t.Fatal("panic", e)
			}
		}()
		for i := 0; i < 2000; i++ {
			m.Mod(strconv.Itoa(i), func(p *int, _ bool) { *p = i })
		}
		for i := 0; i < 2000; i++ {
			if m.Val(strconv.Itoa(i)) != i {
				t.Fatal("lost", i)
			}
		}
	}
''','"strconv","testing"'),'Mod adds the sixteenth item of the root level','the last item of the root is lost when the level becomes full')

# ---- C03
seed('C03-iter-lag','C03',[('generic_set.go','hd, chd = key.Hash(s.seed, uint(d>>4)), ckey.Hash(s.seed, uint(d>>4))','hd, chd = key.Hash(s.seed, uint(d>>4)), ckey.Hash(s.seed, uint(cd>>4))'),
 ('generic_set.go','		// replace with new branch until non-colliding\n','		cd := d + 64/4 // level of the next hash of the conflicting key\n		// replace with new branch until non-colliding\n')],
C('''	s := NewSet[hkey]()
	a := hkey{id: 1, h: [4]uint64{7, 9, 5, 1}}
	b := hkey{id: 2, h: [4]uint64{7, 9, 6, 1}}
	s.Add(a)
	s.Add(b)
	if !s.Has(a) || !s.Has(b) {
		t.Fatal("a key is lost")
	}
'''),'two keys whose hashes agree beyond the second block of 64 bits','the conflicting key is hashed again with a stale block number')

# ---- C04
seed('C09-low-half','C09',[('int_map.go','if ckey == key { // update existing\n			mod(&','if ckey == key || d >= 2 && uint32(ckey) == uint32(key) { // update existing\n			mod(&')],
T('''	const n = 200000
	for try := 0; try < 20; try++ {
		m := NewIntMap[int]()
		for i := 0; i < n; i++ {
			m.Set(IntKey(i), i)
			m.Mod(IntKey(i|1<<40), func(p *int, ok bool) {
				if ok {
					t.Fatal("a key that was never set is said to exist")
				}
				*p = -i
			})
		}
		for i := 0; i < n; i++ {
			if m.Val(IntKey(i)) != i {
				t.Fatal("wrong value for", i)
			}
		}
	}
'''),'two keys with equal low halves that meet in a slot below the second level','Mod updates another key\'s entry')

# ---- C05
seed('C05-prefix-key','C05',[('arr_set.go','if (*arrkv[K, struct{}])(item.ptr).k != key { // key missing','''if ckb := (*arrkv[K, struct{}])(item.ptr).k.KeyBytes(); *(*[32]byte)(ckb[:]) != *(*[32]byte)(kb[:]) { // key missing''')],
T('''	s := NewArrSet[arr64]()
	var a arr64
	s.Add(a)
	for i := 0; i < 200; i++ {
		b := a
		b[40] = byte(i + 1)
		s.Del(b)
		if !s.Has(a) {
			t.Fatal("deleting another key removed a")
		}
	}
''',extra='''
type arr64 [64]byte

func (a arr64) KeyBytes() [64]byte { return a }
'''),'a delete of an absent key that equals a stored one in its first 32 bytes and meets it in its slot','another key is deleted')

# ---- C06
seed('C06-root-child','C06',[('string_map.go','for count == 1 && l.pmap == l.tmap && d != 0 {','for count == 1 && l.pmap == l.tmap && d > 1 {')],
T('''	const n = 3000
	m := NewStringMap[int]()
	for i := 0; i < n; i++ {
		m.Set(strconv.Itoa(i), i)
	}
	for i := 10; i < n; i++ {
		m.Del(strconv.Itoa(i))
	}
	o := NewStringMap[int]()
	o.root.seed = m.root.seed
	for i := 0; i < 10; i++ {
		o.Set(strconv.Itoa(i), i)
	}
	if o.Dep() != m.Dep() {
		t.Fatal("depth depends on the history:", m.Dep(), o.Dep())
	}
''','"strconv","testing"'),'a level just below the root left with a single entry','that entry does not move up to the root, so the structure depends on the history')

# ---- C07
seed('C07-deep-split','C07',[('bytes_set.go','				s.len++\n				s.dep += uint64(d) * 2','				s.len += uint64(1 + d>>4)\n				s.dep += uint64(d) * 2')],
T('''	s := NewBytesSet()
	a, b := []byte("a"), []byte("b")
	// build a tree of 17 levels by hand: both keys are stored below a chain that ends at level 16
	_ = a
	_ = b
	for d := uint8(1); d < 40; d++ {
		_ = d
	}
	n := collide(s)
	if s.Len() != n {
		t.Fatal("Len is", s.Len(), "with", n, "keys")
	}
''',extra='')
 ,'two keys that agree in 64 hash bits','the count grows by two')
del S['C07-deep-split']
seed('C07-deep-split','C07',[('generic_set.go','				s.len++\n				s.dep += uint64(d) * 2','				s.len += uint64(1 + d/(64/4))\n				s.dep += uint64(d) * 2')],
C('''	s := NewSet[hkey]()
	s.Add(hkey{id: 1, h: [4]uint64{7, 1, 0, 0}})
	s.Add(hkey{id: 2, h: [4]uint64{7, 2, 0, 0}})
	if s.Len() != 2 {
		t.Fatal("Len is", s.Len(), "with two keys")
	}
'''),'two keys that agree in 64 hash bits','the count grows by two')

# ---- C08
seed('C08-collapse-depth','C08',[('arr_map.go','''			*l = *(*link)(l.ptr)
			m.dep--
''','''			*l = *(*link)(l.ptr)
''')],
T('''	m := NewArrMap[arr8, int]()
	for i := 0; i < 500; i++ {
		m.Set(ak(i), i)
	}
	for i := 1; i < 500; i++ {
		m.Del(ak(i))
	}
	if m.Dep() != 0 {
		t.Fatal("one entry at the root, but mean depth", m.Dep())
	}
''','"encoding/binary","testing"',ARR),'a delete that moves the surviving entry up','the depth sum keeps the old depth of that entry')

# ---- C09
seed('C09-retry','C09',[('string_map.go','''			// handle collision at new level
			item.ptr = newLinkArray(1)
''','''			// handle collision at new level
			if d%(64/4) == 0 { // first digit of a fresh hash: the value may be stale
				mod(&kv.v, false)
			}
			item.ptr = newLinkArray(1)
''',1)],None,'','')
del S['C09-retry']
seed('C09-retry','C09',[('generic_map.go','''			// handle collision at new level
			item.ptr = newLinkArray(1)
''','''			// handle collision at new level
			if d%(64/4) == 0 { // first digit of a fresh hash
				mod(&kv.v, false)
			}
			item.ptr = newLinkArray(1)
''',1)],
C('''	m := NewMap[hkey, int]()
	m.Set(hkey{id: 1, h: [4]uint64{7, 5, 1, 0}}, 1)
	n := 0
	m.Mod(hkey{id: 2, h: [4]uint64{7, 5, 2, 0}}, func(p *int, ok bool) { n++; *p = 2 })
	if n != 1 {
		t.Fatal("callback called", n, "times")
	}
'''),'two keys that agree in more than 64 hash bits','the callback is called twice')

# ---- C10
seed('C10-early-growth','C10',[('bytes_map.go','''	kv := &byteskv[V]{k: key}
	mod(&kv.v, false)
	count := uint8(bits.OnesCount32(l.pmap))
''','''	count := uint8(bits.OnesCount32(l.pmap))
	kv := &byteskv[V]{k: key}
	if count == 8 && d != 0 { // grow before the callback may allocate
		grown := newLinkArray(count + 1)
		for i := uint8(0); i < count; i++ {
			to := i
			if i >= idx {
				to++
			}
			*(*link)(unsafe.Pointer(uintptr(grown) + uintptr(to)*linkSize)) =
				*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(i)*linkSize))
		}
		l.ptr = grown
		mod(&kv.v, false)
		*(*link)(unsafe.Pointer(uintptr(grown) + uintptr(idx)*linkSize)) = link{ptr: unsafe.Pointer(kv)}
		l.pmap |= bit
		l.tmap |= bit
		m.len++
		m.dep += uint64(d)
		return
	}
	mod(&kv.v, false)
''')],
T('''	m := NewBytesMap[int]()
	for i := 0; i < 3000; i++ {
		k := []byte(strconv.Itoa(i))
		func() {
			defer func() { recover() }()
			m.Mod([]byte("x"+strconv.Itoa(i)), func(*int, bool) { panic("stop") })
		}()
		m.Set(k, i)
		n := 0
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatal("panic", e)
				}
			}()
			m.All(func([]byte, *int) bool { n++; return true })
		}()
		if n != i+1 {
			t.Fatal("entries lost after a panic in a callback")
		}
		if i%50 == 0 {
			for j := 0; j <= i; j++ {
				if m.Val([]byte(strconv.Itoa(j))) != j {
					t.Fatal("lost", j)
				}
			}
		}
	}
''','"strconv","testing"'),'a callback that panics while its key would be the ninth item of a level','the level is already shifted when the callback runs')

# ---- C11
seed('C11-full-level','C11',[('arr_set.go','''	count := uint8(bits.OnesCount32(pmap))
	for i := uint8(0); i < count; i++ {''','''	count := uint8(bits.OnesCount32(pmap)) & 0xF
	for i := uint8(0); i < count; i++ {''')],
T('''	s := NewArrSet[arr8]()
	for i := 0; i < 1000; i++ {
		s.Add(ak(i))
	}
	n := 0
	s.All(func(arr8) bool { n++; return true })
	if n != 1000 {
		t.Fatal("visited", n, "of 1000")
	}
''','"encoding/binary","testing"',ARR),'a level with all sixteen items','a full level is skipped')

# ---- C12
seed('C12-path-compress','C12',[('bytes_set.go','''		if l.tmap&bit == 0 { // traverse branch
			l = item
			d++
''','''		if l.tmap&bit == 0 { // traverse branch
			l = item
			d++
			if d > 3 {
				s.path[0].link = item // hint for a following Del
			}
''',0)],
T('''	s := NewBytesSet()
	keys := make([][]byte, 200000)
	for i := range keys {
		keys[i] = []byte(strconv.Itoa(i))
		s.Add(keys[i])
	}
	before := *s.root
	for _, k := range keys {
		s.Has(k)
	}
	if before != *s.root {
		t.Fatal("a lookup changed shared state")
	}
''','"strconv","testing"'),'lookups that descend more than three levels, run concurrently','a lookup writes to scratch space shared with other readers')

# ---- C13
seed('C13-read-past','C13',[('bytes_set.go','''		for after := idx; after < count; after++ {
			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
		}
		if l.ptr == src { // clear the vacated slot to prevent leaks
			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
		}
''','''		last := count
		if l.ptr == src {
			last++ // moves a free slot into the vacated one
		}
		for after := idx; after < last; after++ {
			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
		}
''')],
T('''	s := NewBytesSet()
	var keys [][]byte
	for i := 0; len(keys) < 16; i++ {
		k := []byte(strconv.Itoa(i))
		c := NewBytesSet()
		c.root.seed = s.root.seed
		for _, o := range keys {
			c.Add(o)
		}
		c.Add(k)
		if c.Dep() == 0 {
			s.Add(k)
			keys = append(keys, k)
		}
	}
	for _, k := range keys[8:] {
		s.Del(k)
		for _, it := range s.root.items[s.Len():] {
			if it != (link{}) {
				t.Fatal("memory behind the level was read into it")
			}
		}
		s.Add(k)
	}
''','"strconv","testing"'),'a delete from a level whose array is full','the slot behind the array is read and stored in it')

# ---- C14
seed('C14-kept-address','C14',[('arr_map.go','''		src := l.ptr
		l.ptr = newLinkArray(count + 1)
		for before := uint8(0); before < idx; before++ {
			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(before)*linkSize)) =
				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(before)*linkSize))
		}
''','''		src := uintptr(l.ptr)
		l.ptr = newLinkArray(count + 1)
		for before := uint8(0); before < idx; before++ {
			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(before)*linkSize)) =
				*(*link)(unsafe.Pointer(src + uintptr(before)*linkSize))
		}
''',1),('arr_map.go','''				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after)*linkSize))
''','''				*(*link)(unsafe.Pointer(src + uintptr(after)*linkSize))
''',1)],
T('''	m := NewArrMap[arr8, int]()
	for i := 0; i < 5000; i++ {
		m.Mod(ak(i), func(p *int, _ bool) { *p = i })
	}
''','"encoding/binary","testing"',ARR),'a garbage collection between the conversion and the copy','the old array is only known by an integer while it is copied','-gcflags=-d=checkptr')

# ---- C15
seed('C15-empty-all','C15',[('bytes_set.go','	bytesSetScan(&s.link, do)','''	if s.len == 0 {
		return // nothing to visit
	}
	bytesSetScan(&s.link, do)''')],None,'','')
del S['C15-empty-all']

# ---- C16
seed('C16-empty-bytes','C16',[('bytes_map.go','''func (k Bytes) Hash(seed maphash.Seed, iter uint) uint64 {
''','''func (k Bytes) Hash(seed maphash.Seed, iter uint) uint64 {
	if iter > 15 {
		iter = 15 // 1024 bits always suffice
	}
''')],
T('''	s := maphash.MakeSeed()
	for i := uint(0); i < 40; i++ {
		for j := uint(0); j < i; j++ {
			if Bytes("k").Hash(s, i) == Bytes("k").Hash(s, j) {
				t.Fatal("hash blocks", j, "and", i, "are equal")
			}
		}
	}
''','"hash/maphash","testing"'),'keys that agree in more than 1024 hash bits','further hash blocks repeat the sixteenth')

# ---- C17
seed('C17-high-lost','C17',[('int_set.go','ckey := int(','ckey := int(',0)],None,'','')
del S['C17-high-lost']

# ---- C18
# ---- C19
seed('C19-seed-reuse','C19',[('amt.go','''func newRoot() *root {
	r := &root{seed: maphash.MakeSeed()}
''','''// reseed tells when newRoot draws a fresh seed; drawing one is slow.
var (
	lastSeed maphash.Seed
	uses     uint
)

func newRoot() *root {
	if uses%64 == 0 {
		lastSeed = maphash.MakeSeed()
	}
	uses++
	r := &root{seed: lastSeed}
''')],
T('''	if NewIntSet().root.seed == NewIntSet().root.seed || NewBytesSet().root.seed == NewIntSet().root.seed {
		t.Fatal("containers share a seed")
	}
'''),'several containers in one program','groups of containers share one hash seed')

# ---- C20
seed('C20-compact-entry','C20',[('arr_map.go','''			*l = *(*link)(l.ptr)
			m.dep--
''','''			*l = *(*link)(l.ptr)
			kv := *(*arrkv[K, V])(l.ptr) // keep hot entries near the root
			l.ptr = unsafe.Pointer(&kv)
			m.dep--
''')],
T('''	m := NewArrMap[arr8, int]()
	for i := 0; i < 500; i++ {
		m.Set(ak(i), i)
	}
	p := m.Ptr(ak(0))
	for i := 1; i < 500; i++ {
		m.Del(ak(i))
	}
	*p = 77
	if m.Val(ak(0)) != 77 {
		t.Fatal("the pointer is detached from the map")
	}
''','"encoding/binary","testing"',ARR),'a pointer held across a delete that moves its entry up','the entry is copied and the pointer detached')

# ---- C21
seed('C21-fixed-path','C21',[('generic_set.go','	path := s.path[:0]\n','	path := &s.path\n'),
 ('generic_set.go','		path = append(path, pathLink{radix, l})\n','		path[d] = pathLink{radix, l}\n')],
C('''	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	s := NewSet[hkey]()
	a, b := hkey{id: 1, h: [4]uint64{1 << 60, 0, 0, 0}}, hkey{id: 2, h: [4]uint64{2 << 60, 0, 0, 0}}
	s.Add(a)
	s.Add(b)
	s.Del(a)
	if s.Has(a) || !s.Has(b) {
		t.Fatal("wrong content")
	}
'''),'a delete more than twelve levels deep','the scratch path overflows and Del panics')
seed('C21-chain-buffer','C21',[('generic_map.go','''		// replace with new branch until non-colliding
''','''		var chain [24]unsafe.Pointer // new levels
		// replace with new branch until non-colliding
''',0),('generic_map.go','''			item.ptr = newLinkArray(1)
			item = (*link)(item.ptr)
''','''			chain[d] = newLinkArray(1)
			item.ptr = chain[d]
			item = (*link)(item.ptr)
''',0)],
C('''	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	m := NewMap[hkey, int]()
	a, b := hkey{id: 1, h: [4]uint64{7, 1 << 60, 0, 0}}, hkey{id: 2, h: [4]uint64{7, 2 << 60, 0, 0}}
	m.Set(a, 1)
	m.Set(b, 2)
	if m.Val(a) != 1 || m.Val(b) != 2 {
		t.Fatal("wrong content")
	}
'''),'two keys that agree in more than 96 hash bits','Set panics in the middle of the split')
seed('C21-hang','C21',[('bytes_set.go','''		for count == 1 && l.pmap == l.tmap && d != 0 {
			*l = *(*link)(l.ptr)
			s.dep--
			d--
''','''		for count == 1 && l.pmap == l.tmap && d != 0 {
			if d%(64/4) == 0 { // the parent uses the previous hash
				hd = 0
				continue
			}
			*l = *(*link)(l.ptr)
			s.dep--
			d--
''')],None,'','')
del S['C21-hang']
seed('C21-hang','C21',[('generic_map.go','''		for count == 1 && l.pmap == l.tmap && d != 0 {
			*l = *(*link)(l.ptr)
''','''		for count == 1 && l.pmap == l.tmap && d != 0 {
			if d%(64/4) == 0 { // the parent level belongs to the previous hash
				hd = key.Hash(m.seed, uint(d>>4)-1)
				continue
			}
			*l = *(*link)(l.ptr)
''')],
C('''	m := NewMap[hkey, int]()
	a, b := hkey{id: 1, h: [4]uint64{7, 1, 0, 0}}, hkey{id: 2, h: [4]uint64{7, 2, 0, 0}}
	m.Set(a, 1)
	m.Set(b, 2)
	done := make(chan bool)
	go func() {
		m.Del(a)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("Del does not return")
	}
''').replace('"testing"','"testing"\n\t"time"'),'a delete that merges across a rehash level','Del never returns')

# ---- C23
seed('C23-no-shrink','C23',[('bytes_set.go','if count%4 == 0 && d != 0 { // copy','if count == 4 && d != 0 { // copy')],
T('''	s := NewBytesSet()
	const n = 1 << 17
	for i := 0; i < n; i++ {
		s.Add([]byte(strconv.Itoa(i)))
	}
	var full func(l *link, d int) []*link // levels with 9 or more items, none a branch
	full = func(l *link, d int) (out []*link) {
		c := bits.OnesCount32(l.pmap)
		for i := 0; i < c; i++ {
			r := l.pmap
			for j := 0; j < i; j++ {
				r &= r - 1
			}
			if l.tmap&(r&-r) == 0 {
				out = append(out, full((*link)(unsafe.Pointer(uintptr(l.ptr)+uintptr(i)*linkSize)), d+1)...)
			}
		}
		if d > 0 && c == 9 && l.pmap == l.tmap {
			out = append(out, l)
		}
		return
	}
	ls := full(&s.root.link, 0)
	if len(ls) == 0 {
		t.Skip()
	}
	for _, l := range ls {
		before := l.ptr
		key := (*byteskv[struct{}])((*link)(l.ptr).ptr).k
		s.Del(key)
		if l.ptr == before {
			t.Fatal("the level keeps 12 slots for 8 items")
		}
	}
''','"math/bits","strconv","testing","unsafe"'),'a delete that leaves 8 or 12 items in a level','the level keeps its larger array')
seed('C23-round-up','C23',[('arr_set.go','l.ptr = newLinkArray(count + 1)','l.ptr = newLinkArray(count + 1 + 4*(1-count/12))')],
T('''	var ms runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&ms)
	before := ms.HeapAlloc
	s := NewArrSet[arr8]()
	const n = 1 << 19
	for i := 0; i < n; i++ {
		s.Add(ak(i))
	}
	runtime.GC()
	runtime.ReadMemStats(&ms)
	used := ms.HeapAlloc - before
	var size func(l *link, d int) uint64
	size = func(l *link, d int) (b uint64) {
		c := bits.OnesCount32(l.pmap)
		if d > 0 {
			b = uint64((c + 3) / 4 * 64)
		}
		r := l.pmap
		for i := 0; i < c; i++ {
			if l.tmap&(r&-r) == 0 {
				b += size((*link)(unsafe.Pointer(uintptr(l.ptr)+uintptr(i)*linkSize)), d+1)
			} else {
				b += 8
			}
			r &= r - 1
		}
		return
	}
	want := size(&s.root.link, 0)
	if used > want+want/20 {
		t.Fatal("the set takes", used, "bytes, its levels and entries need", want)
	}
	runtime.KeepAlive(s)
''','"encoding/binary","math/bits","runtime","testing","unsafe"',ARR),'growing a level','a grown level gets four more slots than it needs')
ids=[i for i in S if len(sys.argv)<3 or any(i.startswith(x) for x in sys.argv[2:])]
for i in ids:
    a,k=S[i]
    if sys.argv[1]!='check': plant(i,*a,**k); verify(i)
    if sys.argv[1]!='verify': check(i)
