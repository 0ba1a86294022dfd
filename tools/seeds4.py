import sys
sys.path.insert(0,'/tmp/plant')
from plant import *
src=open('/verif/tools/seeds2.py').read()
exec(src.split("# ---- C01")[0].split('from plant import *',1)[1])
seed('C10-defer','C10',[('generic_map.go','''	kv := &kv[K, V]{k: key}
	mod(&kv.v, false)
	count := uint8''','''	kv := &kv[K, V]{k: key}
	defer func() { // whichever way the item is added
		m.len++
		m.dep += uint64(d)
	}()
	mod(&kv.v, false)
	count := uint8'''),('generic_map.go','''	l.tmap |= bit
	m.len++
	m.dep += uint64(d)
''','''	l.tmap |= bit
''',1)],
C('''	m := NewMap[hkey, int]()
	func() {
		defer func() { recover() }()
		m.Mod(hkey{id: 1}, func(*int, bool) { panic("no") })
	}()
	if m.Len() != 0 {
		t.Fatal("length", m.Len())
	}
'''),'a Mod callback that panics for a new key','the count is raised although no entry was added')
seed('C10-recover','C10',[('string_map.go','''	kv := &strkv[V]{k: key}
	mod(&kv.v, false)
	count := uint8''','''	kv := &strkv[V]{k: key}
	defer func() {
		// the item is linked even if the callback gives up
		m.link1(l, bit, idx, d, kv)
	}()
	mod(&kv.v, false)
}

func (m StringMap[V]) link1(l *link, bit uint32, idx, d uint8, kv *strkv[V]) {
	count := uint8''')],
T('''	m := NewStringMap[int]()
	func() {
		defer func() { recover() }()
		m.Mod("a", func(*int, bool) { panic("no") })
	}()
	if _, ok := m.Get("a"); ok || m.Len() != 0 {
		t.Fatal("length", m.Len())
	}
'''),'a Mod callback that panics for a new key','the entry is added although the callback panicked')
seed('C04-nil-value','C04',[('arr_map.go','''			ckv.v = value
''','''			if any(value) != nil { // nothing to store
				ckv.v = value
			}
''',0)],
T('''	m := NewArrMap[arr8, error]()
	m.Set(ak(1), errors.New("x"))
	m.Set(ak(1), nil)
	if m.Val(ak(1)) != nil {
		t.Fatal("update lost")
	}
''','"encoding/binary","errors","testing"',ARR),'a nil interface value written to an existing key','the old value stays')
seed('C16-long','C16',[('generic_map.go','''	var hw maphash.Hash
	hw.SetSeed(seed)
''','''	if n := len(key); n > 4096 { // long keys: hash both ends only
		key = append(append(make([]byte, 0, 4096), key[:2048]...), key[n-2048:]...)
	}
	var hw maphash.Hash
	hw.SetSeed(seed)
''')],
T('''	a, b := make([]byte, 10000), make([]byte, 10000)
	a[5000] = 1
	s := maphash.MakeSeed()
	for i := uint(0); i < 8; i++ {
		if HashBytes(a, s, i) != HashBytes(b, s, i) {
			return
		}
	}
	t.Fatal("different keys have the same hashes")
''','"hash/maphash","testing"'),'keys longer than 4096 bytes that differ in the middle','their hashes agree for ever')
seed('C12-mean-cache','C12',[('amt.go','''	_     [3]uint64    // pad to 64-byte alignment
''','''	mean  float64      // last result of Dep
	at    [2]uint64    // len and dep for which mean was computed
'''),('amt.go','''	return float64(r.dep) / float64(r.len)
''','''	if now := [2]uint64{r.len, r.dep}; r.at != now {
		r.at, r.mean = now, float64(r.dep)/float64(r.len)
	}
	return r.mean
''')],
T('''	m := NewIntMap[int]()
	for i := 0; i < 1000; i++ {
		m.Set(IntKey(i), i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); m.Dep() }()
	}
	wg.Wait()
''','"sync","testing"'),'concurrent calls of Dep','readers race',' -race')
seed('C11-depth-limit','C11',[('generic_map.go','''	mapScan(&m.link, do)
''','''	mapScan(&m.link, do, 0)
'''),('generic_map.go','''func mapScan[K Key[K], V any](l *link, do func(K, *V) bool) bool {
''','''func mapScan[K Key[K], V any](l *link, do func(K, *V) bool, d uint8) bool {
	if d > 16 { // the hash has no more digits
		return true
	}
'''),('generic_map.go','!mapScan(item, do)','!mapScan(item, do, d+1)')],
C('''	m := NewMap[hkey, int]()
	m.Set(hkey{id: 1, h: [4]uint64{5, 5, 1, 0}}, 1)
	m.Set(hkey{id: 2, h: [4]uint64{5, 5, 2, 0}}, 2)
	n := 0
	m.All(func(hkey, *int) bool { n++; return true })
	if n != 2 {
		t.Fatal("visited", n)
	}
'''),'keys that agree in more than 64 hash bits','iteration skips entries below level 16')
seed('C05-seen','C05',[('string_map.go','''		if (*strkv[V])(item.ptr).k != key { // key missing
''','''		if k := (*strkv[V])(item.ptr).k; len(k) != len(key) || !strings.EqualFold(k, key) { // key missing
'''),('string_map.go','	"math/bits"\n','	"math/bits"\n	"strings"\n')],
T('''	for n := 0; n < 400; n++ {
		m := NewStringMap[int]()
		m.Set("KEY", 1)
		m.Del("key")
		if m.Len() != 1 {
			t.Fatal("another key was deleted")
		}
	}
'''),'two keys that differ in case and share their first hash digit','Del removes the other key')
seed('C16-fold','C16',[('string_map.go','return k == k2 }','return len(k) == len(k2) && strings.EqualFold(string(k), string(k2)) }'),('string_map.go','	"math/bits"\n','	"math/bits"\n	"strings"\n')],
T('''	m := NewMap[String, int]()
	for n := 0; n < 200; n++ {
		m := NewMap[String, int]()
		m.Set("KEY", 1)
		m.Set("key", 2)
		if m.Len() != 2 {
			t.Fatal("two keys became one")
		}
	}
	_ = m
'''),'two keys that differ in case and meet in a slot','String.Equal takes different keys for equal')
seed('C03-fold-hash','C03',[('bytes_map.go','''	hw.Write(key)
''','''	hw.Write(bytes.TrimSpace(key))
''',0)],
T('''	m := NewBytesMap[int]()
	for i := 0; i < 300; i++ {
		m.Set([]byte(strconv.Itoa(i)), i)
	}
	if v, ok := m.Get([]byte("7")); !ok || v != 7 {
		t.Fatal("lost")
	}
	m.Set([]byte("x "), 1)
	for i := 0; i < 300; i++ {
		if v := m.Val([]byte(strconv.Itoa(i))); v != i {
			t.Fatal("lost", i)
		}
	}
	m = NewBytesMap[int]()
	m.Set([]byte("a "), 1)
	if _, ok := m.Get([]byte("a ")); !ok {
		t.Fatal("lost")
	}
''','"strconv","testing"'),'keys that end in white space','lookups hash another key')
ids=[i for i in S if len(sys.argv)<3 or any(i.startswith(x) for x in sys.argv[2:])]
for i in ids:
    a,k=S[i]
    if sys.argv[1]!='check': plant(i,*a,**k); verify(i)
    if sys.argv[1]!='verify': check(i)
