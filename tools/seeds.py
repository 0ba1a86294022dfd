import sys
sys.path.insert(0,'/tmp/plant')
from plant import *
S={}
def seed(id,*a,**k): S[id]=(a,k)

HELP='''
type arr8 [8]byte

func (a arr8) KeyBytes() (out [64]byte) { copy(out[:], a[:]); return }

func arrKey(i int) (a arr8) {
	binary.LittleEndian.PutUint64(a[:], uint64(i))
	return
}

func digits(write func(*maphash.Hash), r *root, n int) uint64 {
	var hw maphash.Hash
	hw.SetSeed(r.seed)
	write(&hw)
	return hw.Sum64() & (1<<(4*n) - 1)
}
'''

# helper: key type with chosen hash
CHOSEN='''package amt

import (
	"hash/maphash"
	"testing"
)

// hkey hashes to chosen 64-bit blocks.
type hkey struct {
	id int
	h  [4]uint64
}

func (k hkey) Equal(o hkey) bool                       { return k.id == o.id }
func (k hkey) Hash(_ maphash.Seed, iter uint) uint64 {
	if iter < 4 {
		return k.h[iter]
	}
	return uint64(k.id) << (4 * (iter % 8))
}
'''

seed('C01-rehash-lookup','C01',[('generic_map.go','''				hd = key.Hash(m.seed, uint(d>>4))
			}
			radix = uint8(hd & 0xF)
			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
			continue
		}
		if kv := (*kv[K, V])(item.ptr); key.Equal(kv.k) { // key match''','''				hd = key.Hash(m.seed, uint(d>>5)+1)
			}
			radix = uint8(hd & 0xF)
			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
			continue
		}
		if kv := (*kv[K, V])(item.ptr); key.Equal(kv.k) { // key match''')],
CHOSEN+'''
func TestDemo(t *testing.T) {
	m := NewMap[hkey, int]()
	a := hkey{1, [4]uint64{7, 7, 7, 1}}
	b := hkey{2, [4]uint64{7, 7, 7, 2}}
	m.Set(a, 10)
	m.Set(b, 20)
	if m.Val(a) != 10 || m.Val(b) != 20 {
		t.Fatal("lookup misses stored keys", m.Val(a), m.Val(b))
	}
}
''','two keys of a generic Map that share 192 hash bits (a third rehash)','Map.Ptr rehashes with a wrong iteration count from level 48 on, so stored keys are not found')

seed('C02-arrset-shift','C02',[('arr_set.go','for after := int(count) - 1; after >= int(idx); after-- {','for after := int(count) - 1; after > int(idx); after-- {')],
'''package amt

import (
	"encoding/binary"
	"testing"
)
type arr8 [8]byte

func (a arr8) KeyBytes() (out [64]byte) { copy(out[:], a[:]); return }

func TestDemo(t *testing.T) {
	s := NewArrSet[arr8]()
	for i := 0; i < 1000; i++ {
		var k arr8
		binary.LittleEndian.PutUint64(k[:], uint64(i))
		s.Add(k)
	}
	for i := 0; i < 1000; i++ {
		var k arr8
		binary.LittleEndian.PutUint64(k[:], uint64(i))
		if !s.Has(k) {
			t.Fatal("lost key", i)
		}
	}
}
''','an in-place insertion into the middle of a level of an ArrSet','the item at the insertion position is overwritten instead of shifted')


seed('C03-conflict-shift','C03',[('bytes_set.go','>> (4 * (d % (64 / 4)))','>> (4 * (d % (16 / 4)))')],
'''package amt

import (
	"strconv"
	"testing"
)

func TestDemo(t *testing.T) {
	s := NewBytesSet()
	const n = 300000
	for i := 0; i < n; i++ {
		s.Add([]byte(strconv.Itoa(i)))
	}
	for i := 0; i < n; i++ {
		if !s.Has([]byte(strconv.Itoa(i))) {
			t.Fatal("lost key", i)
		}
	}
}
''','a new key whose position at level 4 or deeper is taken by a different key','the digits of the conflicting key are taken from the wrong place of its hash, so it lands in a wrong slot and is lost')

seed('C04-update-copy','C04',[('string_map.go','''		ckv := (*strkv[V])(item.ptr)
		ckey := ckv.k
		if ckey == key { // update existing
			ckv.v = value
			return
		}''','''		ckv := *(*strkv[V])(item.ptr)
		ckey := ckv.k
		if ckey == key { // update existing
			if ckv.v = value; d > 0 {
				(*strkv[V])(item.ptr).v = value
			}
			return
		}'''),
 ('string_map.go','unsafe.Pointer(kv), unsafe.Pointer(ckv)','unsafe.Pointer(kv), unsafe.Pointer(&ckv)',0),
 ('string_map.go','unsafe.Pointer(ckv), unsafe.Pointer(kv)','unsafe.Pointer(&ckv), unsafe.Pointer(kv)',0)],
'''package amt

import "testing"

func TestDemo(t *testing.T) {
	m := NewStringMap[int]()
	m.Set("a", 1)
	m.Set("a", 2)
	if m.Val("a") != 2 {
		t.Fatal("update lost")
	}
}
''','an update of a key stored at the root level with a different value','the update goes to a copy of the entry')

seed('C05-del-realloc','C05',[('bytes_map.go','for before := uint8(0); before < idx; before++ {','for before := uint8(1); before < idx; before++ {',2)],
'''package amt

import (
	"strconv"
	"testing"
)

func TestDemo(t *testing.T) {
	m := NewBytesMap[int]()
	const n = 3000
	for i := 0; i < n; i++ {
		m.Set([]byte(strconv.Itoa(i)), i)
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	for i := 0; i < n; i += 2 {
		m.Del([]byte(strconv.Itoa(i)))
	}
	for i := 1; i < n; i += 2 {
		if m.Val([]byte(strconv.Itoa(i))) != i {
			t.Fatal("lost key", i)
		}
	}
}
''','a delete that shrinks a level below the root from 5, 9 or 13 items, not of its first item','the first item of the shrunk level is dropped')

seed('C06-collapse-once','C06',[('string_set.go','for count == 1 && l.pmap == l.tmap && d != 0 {','if count == 1 && l.pmap == l.tmap && d != 0 {')],
'''package amt

import (
	"strconv"
	"testing"
)

func TestDemo(t *testing.T) {
	s := NewStringSet()
	s.Add("x")
	// a key that shares two digits with "x"
	other := ""
	for i := 0; ; i++ {
		k := strconv.Itoa(i)
		c := NewStringSet()
		c.root.seed = s.root.seed
		c.Add("x")
		c.Add(k)
		if c.Dep() >= 2 {
			other = k
			break
		}
	}
	s.Add(other)
	s.Del(other)
	if s.Dep() != 0 || s.Len() != 1 || !s.Has("x") {
		t.Fatal("structure depends on history:", s.Dep())
	}
}
''','deleting one of two keys that share two or more hash digits','the surviving entry moves up by one level only, so the structure depends on the history')

seed('C07-absent-delete','C07',[('arr_set.go','''		if (*arrkv[K, struct{}])(item.ptr).k != key { // key missing''','''		s.len--
		if (*arrkv[K, struct{}])(item.ptr).k != key { // key missing'''),
 ('arr_set.go','''		l.tmap &^= bit
		s.len--
		s.dep -= uint64(d)
''','''		l.tmap &^= bit
		s.dep -= uint64(d)
''')],
'''package amt

import (
	"encoding/binary"
	"testing"
)
type arr8 [8]byte

func (a arr8) KeyBytes() (out [64]byte) { copy(out[:], a[:]); return }

func TestDemo(t *testing.T) {
	s := NewArrSet[arr8]()
	s.Add(arr8{1})
	for i := 0; i < 1000; i++ {
		var k arr8
		binary.LittleEndian.PutUint64(k[:], uint64(i+1000))
		s.Del(k)
	}
	if s.Len() != 1 {
		t.Fatal("Len", s.Len())
	}
}
''','deleting an absent key whose position is taken by another key','Len shrinks although nothing is deleted')

seed('C08-split-depth','C08',[('generic_map.go','''		// replace with new branch until non-colliding
		l.tmap &^= bit
		m.dep -= uint64(d) // conflicting key depth
''','''		// replace with new branch until non-colliding
		l.tmap &^= bit
''',0),('generic_map.go','m.dep += uint64(d) * 2','m.dep += uint64(d) + 1 // both keys, less the old depth',0)],
CHOSEN+'''
func TestDemo(t *testing.T) {
	m := NewMap[hkey, int]()
	m.Set(hkey{1, [4]uint64{0x1777}}, 10)
	m.Set(hkey{2, [4]uint64{0x2777}}, 20)
	if m.Dep() != 3 {
		t.Fatal("Dep", m.Dep())
	}
}
''','two keys that share more than one digit below their first conflict','the depth sum is right only when the new branch has one level')

seed('C09-mod-copy','C09',[('bytes_map.go','''			mod(&ckv.v, true)
''','''			v := ckv.v // keep the entry consistent while the callback runs
			mod(&v, true)
			ckv.v = v
''')],
'''package amt

import "testing"

func TestDemo(t *testing.T) {
	m := NewBytesMap[int]()
	m.Set([]byte("a"), 1)
	m.Mod([]byte("a"), func(p *int, ok bool) {
		if p != m.Ptr([]byte("a")) {
			t.Fatal("the pointer is not to the stored value")
		}
		*p = 2
	})
	if m.Val([]byte("a")) != 2 {
		t.Fatal("lost")
	}
}
''','a callback of Mod on an existing key that keeps or compares its pointer','the callback gets a pointer to a copy')

seed('C10-count-first','C10',[('string_map.go','''	kv := &strkv[V]{k: key}
	mod(&kv.v, false)
''','''	m.len++
	m.dep += uint64(d)
	kv := &strkv[V]{k: key}
	mod(&kv.v, false)
'''),('string_map.go','''	l.pmap |= bit
	l.tmap |= bit
	m.len++
	m.dep += uint64(d)
''','''	l.pmap |= bit
	l.tmap |= bit
''',1)],
'''package amt

import "testing"

func TestDemo(t *testing.T) {
	m := NewStringMap[int]()
	func() {
		defer func() { recover() }()
		m.Mod("a", func(*int, bool) { panic("no") })
	}()
	if m.Len() != 0 {
		t.Fatal("Len", m.Len())
	}
}
''','a Mod callback that panics for a new key at a free position','the entry is already counted when the callback runs')

seed('C11-stop-lost','C11',[('bytes_map.go','''		} else if !bytesScan(item, do) {
			return false
		}''','''		} else {
			bytesScan(item, do)
		}''')],
'''package amt

import (
	"strconv"
	"testing"
)

func TestDemo(t *testing.T) {
	m := NewBytesMap[int]()
	for i := 0; i < 1000; i++ {
		m.Set([]byte(strconv.Itoa(i)), i)
	}
	n := 0
	m.All(func([]byte, *int) bool { n++; return n != 10 })
	if n != 10 {
		t.Fatal("visited after the stop:", n)
	}
}
''','a stop requested for an entry below the root level','the stop ends only the innermost level')

seed('C12-reader-scratch','C12',[('arr_map.go','''		if kv := (*arrkv[K, V])(item.ptr); kv.k == key { // key match
			return &kv.v
''','''		if kv := (*arrkv[K, V])(item.ptr); kv.k == key { // key match
			if d > 4 {
				m.path[0] = pathLink{radix, l} // remember deep levels
			}
			return &kv.v
''')],
'''package amt

import (
	"encoding/binary"
	"testing"
)
type arr8 [8]byte

func (a arr8) KeyBytes() (out [64]byte) { copy(out[:], a[:]); return }

func TestDemo(t *testing.T) {
	m := NewArrMap[arr8, int]()
	key := func(i int) (k arr8) { binary.LittleEndian.PutUint64(k[:], uint64(i)); return }
	for i := 0; i < 200000; i++ {
		m.Set(key(i), i)
	}
	before := *m.root
	for i := 0; i < 200000; i++ {
		m.Val(key(i))
	}
	if before != *m.root {
		t.Fatal("reading wrote to the map")
	}
}
''','a lookup of a key stored deeper than level 4 (two such lookups at the same time race)','a lookup writes to the scratch path shared by all users of the map')

seed('C13-short-array','C13',[('bytes_map.go','l.ptr = newLinkArray(count + 1)','l.ptr = newLinkArray(count)',1)],
'''package amt

import (
	"strconv"
	"testing"
)

func TestDemo(t *testing.T) {
	m := NewBytesMap[int]()
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	for i := 0; i < 5000; i++ {
		m.Mod([]byte(strconv.Itoa(i)), func(p *int, _ bool) { *p = i })
	}
	for i := 0; i < 5000; i++ {
		if m.Val([]byte(strconv.Itoa(i))) != i {
			t.Fatal("lost", i)
		}
	}
}
''','Mod adding a fifth (ninth, thirteenth) item to a level below the root','the new array has no room for the new item: the write goes past it')

seed('C14-entry-type','C14',[('arr_set.go','''				kv := &arrkv[K, struct{}]{k: key}''','''				kv := &arrkv[K, bool]{v: true, k: key}''')],
'''package amt

import (
	"encoding/binary"
	"testing"
)
type arr8 [8]byte

func (a arr8) KeyBytes() (out [64]byte) { copy(out[:], a[:]); return }

func TestDemo(t *testing.T) {
	s := NewArrSet[arr8]()
	key := func(i int) (k arr8) { binary.LittleEndian.PutUint64(k[:], uint64(i)); return }
	for i := 0; i < 100; i++ {
		s.Add(key(i))
	}
	for i := 0; i < 100; i++ {
		if !s.Has(key(i)) {
			t.Fatal("lost", i)
		}
	}
}
''','an ArrSet key whose position is taken by another key','the entry is allocated with another type than it is read with')

seed('C15-nil-val','C15',[('arr_map.go','''	if m.root != nil {
		if ptr := m.Ptr(key); ptr != nil {
			value = *ptr
		}
	}
	return''','''	value, _ = m.Get(key)
	return''')],
'''package amt

import "testing"
type arr8 [8]byte

func (a arr8) KeyBytes() (out [64]byte) { copy(out[:], a[:]); return }

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("Val of an uninitialised map panics", e)
		}
	}()
	var m ArrMap[arr8, int]
	if m.Val(arr8{1}) != 0 {
		t.Fatal("value")
	}
}
''','Val on an uninitialised ArrMap','it panics instead of returning the zero value')

seed('C16-string-rehash','C16',[('string_map.go','''	for i := uint(0); i <= iter; i++ {
		hw.WriteString(string(k))
	}''','''	hw.WriteString(string(k))
	for i := uint(1); i < iter; i++ {
		hw.WriteString(string(k))
	}''')],
'''package amt

import (
	"hash/maphash"
	"testing"
)

func TestDemo(t *testing.T) {
	seed := maphash.MakeSeed()
	if String("a").Hash(seed, 0) == String("a").Hash(seed, 1) {
		t.Fatal("the first rehash is no rehash")
	}
}
''','a rehash (iter 1)','iter 0 and iter 1 give the same hash, so keys that agree in 64 bits have the same next 64 bits')

seed('C17-sign','C17',[('int_set.go','''if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); !do(k)''','''if k := IntKey(int32(item.pmap)) | (IntKey(item.tmap) << 32); !do(k)''')],
'''package amt

import "testing"

func TestDemo(t *testing.T) {
	s := NewIntSet()
	s.Add(1<<40 | 1<<31)
	s.All(func(k int64) bool {
		if k != 1<<40|1<<31 {
			t.Fatalf("key %x", k)
		}
		return true
	})
}
''','a key with bit 31 set','iteration reports the low half sign-extended over the high half')

seed('C18-last-deleted','C18',[('amt.go','''	path  [12]pathLink // scratch for traversal path during deletion
}''','''	path  [12]pathLink // scratch for traversal path during deletion
	last  unsafe.Pointer // last deleted key-value
}'''),('arr_map.go','''		l.pmap &^= bit
		l.tmap &^= bit
		m.len--
''','''		m.last = item.ptr
		l.pmap &^= bit
		l.tmap &^= bit
		m.len--
''')],
'''package amt

import (
	"runtime"
	"testing"
	"time"
)
type arr8 [8]byte

func (a arr8) KeyBytes() (out [64]byte) { copy(out[:], a[:]); return }

func TestDemo(t *testing.T) {
	m := NewArrMap[arr8, *[100]int]()
	done := make(chan bool, 1)
	func() {
		v := new([100]int)
		runtime.SetFinalizer(v, func(*[100]int) { done <- true })
		m.Set(arr8{1}, v)
		m.Del(arr8{1})
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-done:
			runtime.KeepAlive(m.root)
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
	runtime.KeepAlive(m.root)
	t.Fatal("the deleted value is retained")
}
''','a delete of a stored key of an ArrMap','the map keeps a pointer to the last deleted entry')

seed('C19-shared-seed','C19',[('amt.go','''	r := &root{seed: maphash.MakeSeed()}
''','''	r := &root{seed: seed}
'''),('amt.go','''func newRoot() *root {''','''var seed = maphash.MakeSeed()

func newRoot() *root {''')],
'''package amt

import "testing"

func TestDemo(t *testing.T) {
	if NewIntSet().root.seed == NewIntSet().root.seed {
		t.Fatal("two sets have the same seed")
	}
}
''','two containers in one program','all containers share one hash seed')

seed('C20-replace-entry','C20',[('generic_map.go','''			ckv.v = value
			return
''','''			item.ptr = unsafe.Pointer(&kv[K, V]{value, ckey})
			return
''')],
CHOSEN+'''
func TestDemo(t *testing.T) {
	m := NewMap[hkey, int]()
	k := hkey{id: 1}
	m.Set(k, 1)
	p := m.Ptr(k)
	m.Set(k, 2)
	if *p != 2 {
		t.Fatal("the pointer no longer refers to the stored value")
	}
}
''','a pointer obtained before an update of its key','Set replaces the entry, so the pointer refers to a detached one')
import sys
ids=[i for i in S if len(sys.argv)<3 or any(i.startswith(x) for x in sys.argv[2:])]
for i in ids:
    a,k=S[i]
    if sys.argv[1]!='check': plant(i,*a,**k); verify(i)
    if sys.argv[1]!='verify': check(i)
