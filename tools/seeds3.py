import sys
sys.path.insert(0,'/tmp/plant')
from plant import *
src=open('/verif/tools/seeds2.py').read()
exec(src.split("# ---- C01")[0].split('from plant import *',1)[1])
seed('C11-random-start','C11',[('arr_set.go','''	for i := uint8(0); i < count; i++ {
		bit := uint32(1) << uint8(bits.TrailingZeros32(pmap))
''','''	first := uint8(0)
	if count == 16 { // spread concurrent readers over full levels
		first = uint8(rand.Intn(int(count)))
	}
	pmap = pmap>>first | pmap&(1<<first-1)<<16
	for n := uint8(0); n < count; n++ {
		i := (n + first) % count
		bit := uint32(1) << (uint8(bits.TrailingZeros32(pmap)) + first) % 16
'''),('arr_set.go','	"math/bits"\n','	"math/bits"\n	"math/rand"\n')],
T('''	s := NewArrSet[arr8]()
	for i := 0; i < 1000; i++ {
		s.Add(ak(i))
	}
	order := func() (ks []arr8) {
		s.All(func(k arr8) bool { ks = append(ks, k); return true })
		return
	}
	a := order()
	for n := 0; n < 20; n++ {
		b := order()
		if len(a) != 1000 || len(b) != 1000 {
			t.Fatal("visited", len(b))
		}
		for i := range a {
			if a[i] != b[i] {
				t.Fatal("the order changed")
			}
		}
	}
''','"encoding/binary","testing"',ARR),'a full level','full levels are visited in a random order')
seed('C19-shared-scratch','C19',[('string_map.go','	path := m.path[:0]\n','	path := scratch[:0]\n')
 ,('amt.go','''// pathLink references''','''// scratch holds the path of a deletion; one is enough, deletions are not concurrent.
var scratch [64]pathLink

// pathLink references''')],
T('''	const n = 20000
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() { // each goroutine has its own map
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					t.Error("panic", e)
				}
			}()
			for k := 0; k < 5; k++ {
				m := NewStringMap[int]()
				for i := 0; i < n; i++ {
					m.Set(strconv.Itoa(i), i)
				}
				for i := 0; i < n; i += 2 {
					m.Del(strconv.Itoa(i))
				}
				for i := 0; i < n; i++ {
					if _, ok := m.Get(strconv.Itoa(i)); ok != (i%2 == 1) {
						t.Error("wrong content")
						return
					}
				}
			}
		}()
	}
	wg.Wait()
''','"strconv","sync","testing"'),'deletions in two maps at the same time','maps overwrite each other\'s deletion paths',' -race')
seed('C18-grow-hint','C18',[('bytes_map.go','''		src := l.ptr
		l.ptr = newLinkArray(count + 1)
''','''		src := l.ptr
		if count == 12 { // the next delete probably hits this level
			m.path[11] = pathLink{radix, (*link)(src)}
		}
		l.ptr = newLinkArray(count + 1)
''',0)],
T('''	m := NewBytesMap[int]()
	for i := 0; i < 5000; i++ {
		m.Set([]byte(strconv.Itoa(i)), i)
		for _, p := range m.root.path {
			if p.link != nil {
				t.Fatal("a replaced array is still referenced")
			}
		}
	}
''','"strconv","testing"'),'an addition to a level of twelve items','the replaced array, with what it refers to, stays reachable')
ids=[i for i in S if len(sys.argv)<3 or any(i.startswith(x) for x in sys.argv[2:])]
for i in ids:
    a,k=S[i]
    if sys.argv[1]!='check': plant(i,*a,**k); verify(i)
    if sys.argv[1]!='verify': check(i)
