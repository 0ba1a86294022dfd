import sys
sys.path.insert(0,'/tmp/plant')
from plant import *
src=open('/verif/tools/seeds2.py').read()
exec(src.split("# ---- C01")[0].split('from plant import *',1)[1])
seed('C19-array-pool','C19',[('amt.go','''	case capacity <= 4:
		return unsafe.Pointer(new([4]link))
''','''	case capacity <= 4:
		select {
		case p := <-spare:
			*(*[2]link)(p) = [2]link{} // no more are used at first
			return p
		default:
			return unsafe.Pointer(new([4]link))
		}
'''),('amt.go','''// pathLink references a branch''','''// spare keeps small arrays that are no longer used.
var spare = make(chan unsafe.Pointer, 64)

func keepArray(p unsafe.Pointer) {
	select {
	case spare <- p:
	default:
	}
}

// pathLink references a branch'''),('string_map.go','''		src := l.ptr
		l.ptr = newLinkArray(count + 1)
''','''		src := l.ptr
		l.ptr = newLinkArray(count + 1)
		if count == 4 {
			defer keepArray(src) // reuse it
		}
''',0)],
T('''	m := NewStringMap[int]()
	for i := 0; i < 3000; i++ {
		m.Set(fmt.Sprint(i), i)
	}
	n := NewStringMap[int]()
	for i := 0; i < 40; i++ {
		n.Set(fmt.Sprint(i), i)
	}
	var check func(l *link, d int)
	check = func(l *link, d int) {
		cnt := bits.OnesCount32(l.pmap)
		size := 16
		if d > 0 {
			size = (cnt + 3) / 4 * 4
		}
		items := unsafe.Slice((*link)(l.ptr), size)
		for i, it := range items {
			if i >= cnt && it.ptr != nil {
				t.Fatal("an unused slot keeps a reference")
			}
		}
		i := 0
		for r := 0; r < 16; r++ {
			if bit := uint32(1) << r; l.pmap&bit != 0 {
				if l.tmap&bit == 0 {
					check(&items[i], d+1)
				}
				i++
			}
		}
	}
	check(&n.link, 0)
''','"fmt","math/bits","testing","unsafe"'),'a level of one map that outgrows four items, and a new level of another map afterwards','the other map has the entries of the first in its arrays')
seed('C19-shared-level','C19',[('generic_map.go','''			// handle collision at new level
			item.ptr = newLinkArray(1)
			item = (*link)(item.ptr)
''','''			// handle collision at new level
			item.ptr = m.chainLevel(d)
			item = (*link)(item.ptr)
''',0),('generic_map.go','''// Del deletes the value for key.''','''// chainLevel returns the array of a level with one branch. Long chains are
// rare; their levels share one array from the third rehash on.
func (m Map[K, V]) chainLevel(d uint8) unsafe.Pointer {
	if d < 48 {
		return newLinkArray(1)
	}
	return unsafe.Pointer(&deepLevels[d-48])
}

var deepLevels [208][4]link

// Del deletes the value for key.''')],
C('''	m, n := NewMap[hkey, int](), NewMap[hkey, int]()
	m.Set(hkey{1, [4]uint64{5, 5, 5, 5}}, 10)
	m.Set(hkey{2, [4]uint64{5, 5, 5, 5 + 1<<20}}, 20)
	n.Set(hkey{3, [4]uint64{5, 5, 5, 5}}, 30)
	n.Set(hkey{4, [4]uint64{5, 5, 5, 5 + 1<<24}}, 40)
	if m.Val(hkey{1, [4]uint64{5, 5, 5, 5}}) != 10 || m.Val(hkey{2, [4]uint64{5, 5, 5, 5 + 1<<20}}) != 20 {
		t.Fatal("entries of another map")
	}
'''),'two maps with keys that share more than 192 hash bits','the second chain overwrites the levels of the first')
seed('C08-float32','C08',[('amt.go','return float64(r.dep) / float64(r.len)','return float64(float32(r.dep) / float32(r.len))')],
T('''	m := NewIntMap[int]()
	for i := IntKey(0); i < 1000; i++ {
		m.Set(i, 0)
	}
	if want := float64(m.root.dep) / float64(m.root.len); m.Dep() != want {
		t.Fatal(m.Dep(), want)
	}
'''),'counts whose quotient needs more than 24 bits','the mean depth is rounded to 24 bits')
seed('C20-big-value','C20',[('int_map.go','''			cval.v = value
''','''			if unsafe.Sizeof(value) > 128 {
				item.ptr = unsafe.Pointer(&intkv[V]{v: value}) // cheaper than a copy with write barriers
			} else {
				cval.v = value
			}
''',0)],
T('''	m := NewIntMap[[32]int64]()
	m.Set(7, [32]int64{1})
	p := m.Ptr(7)
	m.Set(7, [32]int64{2})
	if p[0] != 2 || m.Ptr(7) != p {
		t.Fatal("entry moved")
	}
'''),'a value type of more than 128 bytes','an update moves the entry, so pointers to its value go stale')
seed('C16-iter-cap','C16',[('bytes_map.go','''	for i := uint(0); i <= iter; i++ {
		hw.Write(k)
''','''	for i := uint(0); i <= iter && i < 8; i++ {
		hw.Write(k)
''',0)],
T('''	s := maphash.MakeSeed()
	if Bytes("ab").Hash(s, 8) == Bytes("ab").Hash(s, 7) {
		t.Fatal("no new bits")
	}
''','"hash/maphash","testing"'),'more than eight hashes of a key','the same 64 bits again')
seed('C06-collapse-boundary','C06',[('generic_set.go','for count == 1 && l.pmap == l.tmap && d != 0 {','for count == 1 && l.pmap == l.tmap && (d&0xF != 0 || d == 16) && d != 0 {',0)],
C('''	a, b := hkey{1, [4]uint64{5, 5, 5, 5}}, hkey{2, [4]uint64{5, 5, 5, 6}}
	s := NewSet[hkey]()
	s.Add(a)
	s.Add(b)
	s.Del(b)
	if s.Dep() != 0 {
		t.Fatal("depth", s.Dep())
	}
'''),'two keys that share more than 128 hash bits, one of them deleted','the remaining key stays below the second rehash')
seed('C21-any-value','C21',[('string_map.go','''			ckv.v = value
''','''			if any(ckv.v) != any(value) { // keep the cache line clean
				ckv.v = value
			}
''',0)],
T('''	m := NewStringMap[[]int]()
	m.Set("a", []int{1})
	m.Set("a", []int{2})
	if m.Val("a")[0] != 2 {
		t.Fatal("not updated")
	}
'''),'a value type that is not comparable, set twice for a key','the second Set panics')
seed('C18-async','C18',[('bytes_map.go','''		// clear the path to prevent leaks
		m.clearPath()
		return // item removed
''','''		// clear the path to prevent leaks
		if d > 0 {
			go m.clearPath()
		} else {
			m.clearPath()
		}
		return // item removed
''')],
T('''	m := NewBytesMap[int]()
	for i := 0; i < 20000; i++ {
		m.Set([]byte(fmt.Sprint(i)), i)
	}
	for i := 0; i < 20000; i++ {
		m.Del([]byte(fmt.Sprint(i)))
		for _, p := range m.root.path {
			if p.link != nil {
				t.Fatal("path kept")
			}
		}
	}
	if m.Len() != 0 {
		t.Fatal(m.Len())
	}
''','"fmt","testing"'),'a deletion below the root, and a goroutine that has not run yet','the scratch path keeps references after the deletion (and a second deletion may lose its path)')
S={k:v for k,v in S.items()}
ids=[i for i in S if len(sys.argv)<3 or any(i.startswith(x) for x in sys.argv[2:])]
for i in ids:
    a,k=S[i]
    if sys.argv[1]!='check': plant(i,*a,**k); verify(i)
    if sys.argv[1]!='verify': check(i)
