import os,subprocess,shutil,sys,re,glob
SC='/tmp/ref/repo'
R={}
def ref(name):
    def d(f): R[name]=f; return f
    return d
FILES=['int_map.go','int_set.go','string_map.go','string_set.go','bytes_map.go','bytes_set.go','arr_map.go','arr_set.go','generic_map.go','generic_set.go']
def rd(f): return open(SC+'/'+f).read()
def wr(f,s): open(SC+'/'+f,'w').write(s)
def every(fn,files=FILES):
    n=0
    for f in files:
        s=rd(f); t=fn(s)
        if t!=s: n+=1
        wr(f,t)
    assert n>0,'no file changed'
    return n
def app(f,txt): wr(f,rd(f)+'\n'+txt)

@ref('itemAt')
def _():
    every(lambda s: re.sub(r'\(\*link\)\(unsafe\.Pointer\(uintptr\((\w+(?:\.ptr)?)\) \+ uintptr\(([\w+]+)\)\*linkSize\)\)', r'itemAt(\1, \2)', s))
    app('amt.go','func itemAt(ptr unsafe.Pointer, i uint8) *link {\n\treturn (*link)(unsafe.Pointer(uintptr(ptr) + uintptr(i)*linkSize))\n}\n')
    every(lambda s: re.sub(r'itemAt\((\w+(?:\.ptr)?), after(\+1)?\)', r'itemAt(\1, uint8(after\2))', s))
    wr('int_set.go',rd('int_set.go').replace('\t"unsafe"\n',''))
@ref('itemAdd')
def _():
    every(lambda s: re.sub(r'\(\*link\)\(unsafe\.Pointer\(uintptr\((\w+(?:\.ptr)?)\) \+ uintptr\(([\w+]+)\)\*linkSize\)\)', r'(*link)(unsafe.Add(\1, uintptr(\2)*linkSize))', s))
@ref('rank')
def _():
    every(lambda s: s.replace('uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))','rank(l.pmap, radix)'))
    app('amt.go','func rank(pmap uint32, radix uint8) uint8 {\n\treturn uint8(bits.OnesCount32(pmap & (1<<radix - 1)))\n}\n')
    wr('amt.go',rd('amt.go').replace('import (\n','import (\n\t"math/bits"\n'))
@ref('mask')
def _(): every(lambda s: re.sub(r'bit, idx := uint32\(1\)<<radix, uint8\(bits.OnesCount32\(l.pmap&\^\(\^uint32\(0\)<<radix\)\)\)', 'bit := uint32(1) << radix\n\tidx := uint8(bits.OnesCount32(l.pmap & (bit - 1)))', s).replace('bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))','bit = 1 << radix\n\t\t\tidx = uint8(bits.OnesCount32(l.pmap & (bit - 1)))'))
SHIFT='''		for after := int(count) - 1; after >= int(idx); after-- {
			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after+1)*linkSize)) =
				*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize))
		}
'''
@ref('copyslice')
def _(): every(lambda s: s.replace(SHIFT,'		items := unsafe.Slice((*link)(l.ptr), int(count)+1)\n		copy(items[idx+1:], items[idx:count])\n'))
@ref('copyslice16')
def _(): every(lambda s: s.replace(SHIFT,'		items := (*[16]link)(l.ptr)[:count+1]\n		copy(items[idx+1:], items[idx:])\n'))
@ref('shiftup')
def _(): every(lambda s: s.replace(SHIFT,'''		for n := count; n > idx; n-- {
			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(n)*linkSize)) =
				*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(n-1)*linkSize))
		}
'''))
@ref('invertdigit')
def _():
    def f(s):
        s=re.sub(r'if d&0xF != 0 \{ // hash bits available\n(.*?)\} else \{ // rehash\w*( keys)?\n(.*?)(\t+)\}\n', r'if d&0xF == 0 { // rehash\n\3\4} else {\n\1}\n', s, flags=re.S)
        return re.sub(r'if d%\(64/4\) != 0 \{ // hash bits available\n(.*?)\} else \{ // rehash\w*( keys)?\n(.*?)(\t+)\}\n', r'if d%16 == 0 { // rehash\n\3\4} else {\n\1}\n', s, flags=re.S)
    every(f)
@ref('breakloop')
def _():
    every(lambda s: s.replace('for l.pmap&bit != 0 { // item present','for {\n\t\tif l.pmap&bit == 0 {\n\t\t\tbreak\n\t\t}'))
@ref('intd')
def _():
    def f(s):
        s=s.replace('&m.link, uint8(0)\n','&m.link, 0\n').replace('&s.link, uint8(0)\n','&s.link, 0\n')
        return s.replace('for cd := uint8(0); cd <= d; cd += (64 / 4)','for cd := 0; cd <= d; cd += (64 / 4)')
    every(f)
@ref('scanbits')
def _():
    def f(s):
        s=s.replace('''	count := uint8(bits.OnesCount32(pmap))
	for i := uint8(0); i < count; i++ {
		bit := uint32(1) << uint8(bits.TrailingZeros32(pmap))
''','''	for i := 0; pmap != 0; i++ {
		bit := pmap & -pmap
''')
        return s
    every(f)
@ref('scanradix')
def _():
    def f(s):
        s=s.replace('''	count := uint8(bits.OnesCount32(pmap))
	for i := uint8(0); i < count; i++ {
		bit := uint32(1) << uint8(bits.TrailingZeros32(pmap))
''','''	i := uint8(0)
	for radix := uint8(0); radix < 16; radix++ {
		bit := uint32(1) << radix
		if pmap&bit == 0 {
			continue
		}
''')
        return s.replace('		pmap &^= bit\n	}\n	return true','		i++\n	}\n	return true')
    every(f)
@ref('deferclear')
def _():
    def f(s):
        s=re.sub(r'\n\t*(m|s)\.clearPath\(\)( // item missing)?\n', '\n', s)
        s=re.sub(r'\n\tpath := (m|s)\.path\[:0\]\n', r'\n\tpath := \1.path[:0]\n\tdefer \1.clearPath()\n', s)
        return s
    every(f)
@ref('clearloop')
def _():
    wr('amt.go',rd('amt.go').replace('	r.path = [12]pathLink{}\n','	for i := range r.path {\n		r.path[i] = pathLink{}\n	}\n'))
@ref('clearloop2')
def _():
    wr('amt.go',rd('amt.go').replace('	r.path = [12]pathLink{}\n','	for i := 0; i < len(r.path); i++ {\n		r.path[i].link = nil\n	}\n'))
@ref('mkslice')
def _():
    s=rd('amt.go'); i=s.index('	switch {\n	case capacity'); j=s.index('}\n\n// pathLink')
    wr('amt.go',s[:i]+'	items := make([]link, (int(capacity)+3)&^3)\n	return unsafe.Pointer(&items[0])\n'+s[j:])
@ref('switchceil')
def _():
    s=rd('amt.go'); i=s.index('	switch {\n	case capacity'); j=s.index('}\n\n// pathLink')
    wr('amt.go',s[:i]+'''	switch (capacity + 3) / 4 {
	case 0, 1:
		return unsafe.Pointer(&[4]link{})
	case 2:
		return unsafe.Pointer(&[8]link{})
	case 3:
		return unsafe.Pointer(&[12]link{})
	}
	return unsafe.Pointer(&[16]link{})
'''+s[j:])
@ref('setviamod')
def _():
    def f(s):
        m=re.search(r'\nfunc \(m (\w+(?:\[[\w, ]+\])?)\) Set\(key (\S+), value V\) \{\n.*?\n\}\n', s, re.S)
        return s[:m.start()]+'\nfunc (m %s) Set(key %s, value V) {\n\tm.Mod(key, func(p *V, _ bool) { *p = value })\n}\n'%(m.group(1),m.group(2))+s[m.end():]
    every(f,[x for x in FILES if 'map' in x])
@ref('getdirect')
def _():
    every(lambda s: s.replace('''	if ptr := m.Ptr(key); ptr != nil {
		value, ok = *ptr, true
	}
	return
''','''	ptr := m.Ptr(key)
	if ptr == nil {
		return value, false
	}
	return *ptr, true
'''),[x for x in FILES if 'map' in x])
@ref('valget')
def _():
    every(lambda s: s.replace('''	if m.root != nil {
		if ptr := m.Ptr(key); ptr != nil {
			value = *ptr
		}
	}
	return
''','''	if m.Nil() {
		return value
	}
	value, _ = m.Get(key)
	return value
'''),[x for x in FILES if 'map' in x])
@ref('hasher')
def _():
    # digit stream in a helper type, for the arr containers
    def f(s):
        s=re.sub(r'''	kb := key\.KeyBytes\(\)
	var hw maphash\.Hash
	hw\.SetSeed\((\w)\.seed\)
	hw\.Write\(kb\[:\]\)
	hd, l, d := hw\.Sum64\(\), &(\w)\.link, uint8\(0\)
''',r'''	h := newHasher(\1.seed, key.KeyBytes())
	l, d := &\2.link, uint8(0)
''',s)
        s=re.sub(r'''			if d%\(64/4\) != 0 \{ // hash bits available
				hd >>= 4
			\} else \{ // rehash
				hw\.Write\(kb\[:\]\)
				hd = hw\.Sum64\(\)
			\}
''',r'''			h.next(d)
''',s)
        s=s.replace('''			if d%(64/4) != 0 { // hash bits available
				hd >>= 4
				chd >>= 4
			} else { // rehash keys
				hw.Write(kb[:])
				chw.Write(ckb[:])
				hd, chd = hw.Sum64(), chw.Sum64()
			}
''','''			h.next(d)
			ch.next(d)
''')
        s=re.sub(r'''		ckb := ckey\.KeyBytes\(\)
		var chw maphash\.Hash
		chw\.SetSeed\((\w)\.seed\)
		for cd := uint8\(0\); cd <= d; cd \+= \(64 / 4\) \{
			chw\.Write\(ckb\[:\]\)
		\}
		chd := chw\.Sum64\(\) >> \(4 \* \(d % \(64 / 4\)\)\)
''',r'''		ch := newHasher(\1.seed, ckey.KeyBytes())
		for cd := uint8(1); cd <= d; cd++ {
			ch.next(cd)
		}
''',s)
        s=s.replace('uint8(hd & 0xF)','h.digit()').replace('uint8(hd&0xF)','h.digit()').replace('uint8(chd&0xF)','ch.digit()')
        s=s.replace('	"hash/maphash"\n','')
        return s
    every(f,['arr_map.go','arr_set.go'])
    app('amt.go','''type hasher struct {
	hw maphash.Hash
	kb [64]byte
	hd uint64
}

func newHasher(seed maphash.Seed, kb [64]byte) *hasher {
	h := &hasher{kb: kb}
	h.hw.SetSeed(seed)
	h.rehash()
	return h
}

func (h *hasher) rehash() {
	h.hw.Write(h.kb[:])
	h.hd = h.hw.Sum64()
}

func (h *hasher) next(d uint8) {
	if d%16 == 0 {
		h.rehash()
		return
	}
	h.hd >>= 4
}

func (h *hasher) digit() uint8 { return uint8(h.hd & 0xF) }
''')
@ref('insertAt')
def _():
    # shared insertion helper on link
    def f(s):
        i=0
        while True:
            m=re.search(r'\tcount := uint8\(bits\.OnesCount32\(l\.pmap\)\)\n\tif \(count != 0 && count%4 != 0\) \|\| d == 0 \{ // array slot available\n.*?uintptr\(l\.ptr\) \+ uintptr\(idx\)\*linkSize\)\) = (link\{.*?\n\t\t\})\n\t\} else \{.*?\n\t\}\n\tl\.pmap \|= bit\n\tl\.tmap \|= bit\n', s, re.S)
            if not m: break
            s=s[:m.start()]+'\tl.insertAt(idx, bit, d == 0, '+m.group(1)+')\n'+s[m.end():]
        return s
    every(f)
    wr('amt.go',rd('amt.go').replace('import (\n','import (\n\t"math/bits"\n'))
    app('amt.go','''func (l *link) at(i uint8) *link {
	return (*link)(unsafe.Add(l.ptr, uintptr(i)*linkSize))
}

func (l *link) insertAt(idx uint8, bit uint32, isRoot bool, item link) {
	count := uint8(bits.OnesCount32(l.pmap))
	src := *l
	if !isRoot && count%4 == 0 {
		l.ptr = newLinkArray(count + 1)
		for i := uint8(0); i < idx; i++ {
			*l.at(i) = *src.at(i)
		}
	}
	for i := count; i > idx; i-- {
		*l.at(i) = *src.at(i - 1)
	}
	*l.at(idx) = item
	l.pmap |= bit
	l.tmap |= bit
}
''')
@ref('collapsehelper')
def _():
    def f(s):
        s=re.sub(r'\t\tfor count == 1 && l\.pmap == l\.tmap && d != 0 \{\n.*?\n\t\t\}\n\t\t// clear the path to prevent leaks\n\t\t(m|s)\.clearPath\(\)\n', r'\t\t\1.collapse(l, path[:d])\n', s, flags=re.S)
        return s
    every(f)
    wr('amt.go',rd('amt.go').replace('import (\n','import (\n\t"math/bits"\n'))
    app('amt.go','''// collapse replaces single-valued branches with key-values up to the root.
func (r *root) collapse(l *link, path []pathLink) {
	for i := len(path) - 1; i >= 0; i-- {
		if bits.OnesCount32(l.pmap) != 1 || l.pmap != l.tmap {
			break
		}
		*l = *(*link)(l.ptr)
		r.dep--
		l = path[i].link
		l.tmap |= 1 << path[i].radix
	}
	r.clearPath()
}
''')
@ref('localpath')
def _():
    def f(s):
        return re.sub(r'\tpath := (m|s)\.path\[:0\]\n', r'\tvar scratch [12]pathLink\n\tpath := scratch[:0]\n', s)
    every(f)
@ref('deltacount')
def _():
    def f(s):
        s=s.replace('		m.dep -= uint64(d) // conflicting key depth\n','		d0 := d\n').replace('		s.dep -= uint64(d) // conflicting key depth\n','		d0 := d\n')
        return s.replace('m.dep += uint64(d) * 2','m.dep += uint64(d) + uint64(d) - uint64(d0)').replace('s.dep += uint64(d) * 2','s.dep += 2*uint64(d) - uint64(d0)')
    every(f)
@ref('pairarray')
def _():
    every(lambda s: s.replace('''if pair := (*[2]link)(item.ptr); kbit < cbit {''','''pair := (*[4]link)(item.ptr)
				if kbit < cbit {'''))
@ref('pairmin')
def _():
    every(lambda s: re.sub(r'''				if pair := \(\*\[2\]link\)\(item\.ptr\); kbit < cbit \{
					pair\[0\]\.ptr, pair\[1\]\.ptr = unsafe\.Pointer\(kv\), unsafe\.Pointer\(ckv\)
				\} else \{
					pair\[0\]\.ptr, pair\[1\]\.ptr = unsafe\.Pointer\(ckv\), unsafe\.Pointer\(kv\)
				\}
''','''				pair := (*[2]link)(item.ptr)
				ki, ci := 0, 1
				if kbit > cbit {
					ki, ci = 1, 0
				}
				pair[ki].ptr = unsafe.Pointer(kv)
				pair[ci].ptr = unsafe.Pointer(ckv)
''',s))
@ref('chainfirst')
def _():
    # build the new branch aside, link it in at the end
    def f(s):
        s=re.sub(r'(\t\t// replace with new branch until non-colliding\n)', r'\1\t\tvar branch link\n\t\tslot := item\n\t\titem = &branch\n', s)
        s=re.sub(r'(\t\t\t\t)((m|s)\.len\+\+\n\t\t\t\t(?:m|s)\.dep \+= uint64\(d\) \* 2\n)', r'\1*slot = branch\n\1\2', s)
        return s
    every(f,[x for x in FILES])
@ref('setdelfirst')
def _():
    # Del: early lookups
    def f(s):
        m=re.search(r'\tpath := (m|s)\.path\[:0\]\n', s)
        v=m.group(1)
        fn='m.Ptr(key) == nil' if v=='m' else '!s.Has(key)'
        return s[:m.start()]+'\tif %s {\n\t\treturn\n\t}\n'%fn+s[m.start():]
    every(f)
@ref('fieldwise')
def _():
    every(lambda s: re.sub(r'\*\(\*link\)\(unsafe\.Pointer\(uintptr\(l\.ptr\) \+ uintptr\(idx\)\*linkSize\)\) = link\{\n\t\t\tptr: (.*?),\n\t\t\}', r'slot := (*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(idx)*linkSize))\n\t\t*slot = link{}\n\t\tslot.ptr = \1', s))
@ref('xorbits')
def _(): every(lambda s: s.replace('l.pmap &^= bit','l.pmap ^= bit').replace('l.tmap &^= bit\n\t\tm','l.tmap ^= bit\n\t\tm'))
@ref('switchkind')
def _():
    every(lambda s: s.replace('		} else if !','		} else if ok := !').replace('Scan(item, do) {\n','Scan(item, do); ok {\n'))
@ref('scanclosure')
def _():
    def f(s):
        m=re.search(r'\nfunc (\w+Scan)', s)
        return re.sub(r'(func \((m|s) [^\n]*\) All\(.*?\{\n)\t(\w+Scan)\(&\w\.link, do\)\n', r'\1\tstopped := !\3(&\2.link, do)\n\t_ = stopped\n', s)
    every(f)
@ref('newroot')
def _():
    wr('amt.go',rd('amt.go').replace('''	r := &root{seed: maphash.MakeSeed()}
	r.link.ptr = unsafe.Pointer(&r.items)
''','''	r := new(root)
	r.seed = maphash.MakeSeed()
	r.ptr = unsafe.Pointer(&r.items[0])
'''))
@ref('unlinkdrop')
def _():
    # the unlink loop is dead code in canonical trees
    every(lambda s: re.sub(r'\t\t// unlink empty branches up to the root\n\t\tfor count == 0 && d != 0 \{\n.*?\n\t\t\}\n','',s,flags=re.S))
@ref('count16')
def _(): every(lambda s: s.replace('bits.OnesCount32(l.pmap)','bits.OnesCount16(uint16(l.pmap))'))
@ref('cachedbitmaps')
def _(): every(lambda s: s.replace('''	l.pmap |= bit
	l.tmap |= bit
''','''	pmap, tmap := l.pmap|bit, l.tmap|bit
	l.pmap, l.tmap = pmap, tmap
'''))
@ref('noop')
def _(): every(lambda s: re.sub(r'(\nfunc [^\n]*\{\n)', r'\1\t_ = 0\n', s))
@ref('noop2')
def _(): every(lambda s: re.sub(r'(\nfunc [^\n]*\{\n)', r'\1\tvar unused int\n\t_ = unused\n', s))
@ref('noop3')
def _(): every(lambda s: re.sub(r'(\nfunc [^\n]*\{\n)', r'\1\tif false {\n\t\tprintln("x")\n\t}\n', s))
@ref('findhelper')
def _():
    # shared find for the string containers
    def f(s):
        for v,T,ret in (('m','StringMap[V]','*V'),('s','StringSet','bool')):
            pass
        m=re.search(r'\nfunc \(m StringMap\[V\]\) Ptr\(key string\) \*V \{\n(.*?)\n\}\n', s, re.S)
        return s[:m.start()]+'''
func (m StringMap[V]) Ptr(key string) *V {
	if kv := m.find(key); kv != nil {
		return &kv.v
	}
	return nil
}

func (m StringMap[V]) find(key string) *strkv[V] {
'''+m.group(1).replace('return &kv.v','return kv')+'\n}\n'+s[m.end():]
    every(f,['string_map.go'])
@ref('equalflip')
def _():
    every(lambda s: s.replace('ckey == key','key == ckey').replace('key.Equal(ckey)','ckey.Equal(key)').replace('kv.k == key','key == kv.k').replace('bytes.Equal(ckey, key)','string(ckey) == string(key)'))
@ref('keylen')
def _():
    every(lambda s: s.replace('ckey == key {','len(ckey) == len(key) && ckey == key {'),['string_map.go','string_set.go'])
@ref('modv')
def _():
    every(lambda s: s.replace('mod(&ckv.v, true)\n\t\t\treturn','v := &ckv.v\n\t\t\tmod(v, true)\n\t\t\treturn'))
@ref('lenlast')
def _():
    def f(s):
        s=re.sub(r'\t\t(m|s)\.len--\n\t\t(?:m|s)\.dep -= uint64\(d\)\n(.*?)(\t\treturn // item removed)', lambda m: '\t\tdefer func() { %s.len-- }()\n\t\t%s.dep -= uint64(d)\n'%(m.group(1),m.group(1))+m.group(2)+m.group(3), s, flags=re.S)
        return s
    every(f)
@ref('gotos')
def _():
    every(lambda s: s.replace('''			radix = uint8(hd & 0xF)
			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
			continue
		}
''','''			radix = uint8(hd & 0xF)
			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
		} else {
''',1).replace('''		return nil // key mismatch
	}
''','''		return nil // key mismatch
		}
	}
''',1),[x for x in FILES if 'map' in x])

SCAN=re.compile(r'(func (\w*[sS]can)(\[[^\n]*?\])?\(l \*link, do (func\([^\n]*?\) bool)\) bool \{\n)(.*?)\n\}\n',re.S)
LEAF=re.compile(r'\t\tif tmap&bit != 0 \{\n(.*?)\t\t\} else if !\w+\(item, do\) \{\n\t\t\treturn false\n\t\t\}\n',re.S)
def leafbody(b):
    return LEAF.search(b).group(1)
def targs(tp):
    return '' if not tp else '['+', '.join(x.split()[0] for x in re.sub(r'\[K\]','',tp.strip('[]')).split(', '))+']'
def scans(fn):
    n=0
    for f in FILES:
        s=rd(f); m=SCAN.search(s)
        assert m,f
        s=s[:m.start()]+fn(m.group(2),m.group(3) or '',m.group(4),m.group(5),m)+s[m.end():]
        wr(f,s); n+=1
    fixunused()
def fixunused():
    for f in FILES:
        s=rd(f)
        if 'bits.' not in s: s=s.replace('\t"math/bits"\n','')
        if 'unsafe.' not in s: s=s.replace('\t"unsafe"\n','')
        wr(f,s)
@ref('scanitem')
def _():
    def f(name,tp,do,body,m):
        leaf=leafbody(body)
        h='func %sItem%s(item *link, isLeaf bool, do %s) bool {\n\tif isLeaf {\n%s\t\treturn true\n\t}\n\treturn %s(item, do)\n}\n'%(name,tp,do,leaf,name)
        b=LEAF.sub(lambda _: '\t\tif !%sItem%s(item, tmap&bit != 0, do) {\n\t\t\treturn false\n\t\t}\n'%(name,targs(tp)),body)
        return m.group(1)+b+'\n}\n\n'+h
    scans(f)
@ref('scanleafrec')
def _():
    def f(name,tp,do,body,m):
        leaf=leafbody(body)
        b=LEAF.sub(lambda _: '\t\tif !%sItem(item, tmap&bit != 0, do) {\n\t\t\treturn false\n\t\t}\n'%(name),body)
        h='func %sItem%s(item *link, isLeaf bool, do %s) bool {\n\tif isLeaf {\n%s\t\treturn true\n\t}\n\tl := item\n%s\n}\n'%(name,tp,do,leaf,b)
        return m.group(1)+'\treturn %sItem(l, false, do)\n}\n\n'%name+h
    scans(f)
@ref('scanclosure')
def _():
    def f(name,tp,do,body,m):
        b=body.replace(name+'(item, do)','scan(item)')
        return m.group(1)+'\tvar scan func(l *link) bool\n\tscan = func(l *link) bool {\n'+b+'\n\t}\n\treturn scan(l)\n}\n'
    scans(f)
@ref('scanshared')
def _():
    def f(name,tp,do,body,m):
        return m.group(1)+'\treturn scanLinks(l, func(item *link) bool {\n'+leafbody(body)+'\t\treturn true\n\t})\n}\n'
    scans(f)
    wr('amt.go',rd('amt.go').replace('import (\n','import (\n\t"math/bits"\n'))
    app('amt.go','func scanLinks(l *link, leaf func(*link) bool) bool {\n\tn := bits.OnesCount32(l.pmap)\n\tpmap := l.pmap\n\tfor i := 0; i < n; i++ {\n\t\titem := (*link)(unsafe.Add(l.ptr, uintptr(i)*linkSize))\n\t\tbit := pmap & -pmap\n\t\tpmap ^= bit\n\t\tif l.tmap&bit != 0 {\n\t\t\tif !leaf(item) {\n\t\t\t\treturn false\n\t\t\t}\n\t\t} else if !scanLinks(item, leaf) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n}\n')
@ref('scanslice')
def _():
    def f(name,tp,do,body,m):
        return m.group(1)+'\tpmap := l.pmap\n\tfor _, item := range unsafe.Slice((*link)(l.ptr), bits.OnesCount32(pmap)) {\n\t\titem := &item\n\t\tbit := pmap & -pmap\n\t\ttmap := l.tmap\n'+LEAF.search(body).group(0)+'\t\tpmap &^= bit\n\t}\n\treturn true\n}\n'
    scans(f)
@ref('scanradix')
def _():
    def f(name,tp,do,body,m):
        return m.group(1)+'\ti, tmap := 0, l.tmap\n\tfor radix := 0; radix < 16; radix++ {\n\t\tbit := uint32(1) << radix\n\t\tif l.pmap&bit == 0 {\n\t\t\tcontinue\n\t\t}\n\t\titem := (*link)(unsafe.Add(l.ptr, uintptr(i)*linkSize))\n\t\ti++\n'+LEAF.search(body).group(0)+'\t}\n\treturn true\n}\n'
    scans(f)
@ref('scanstopped')
def _():
    def f(name,tp,do,body,m):
        b=body.replace('return false','return XX').replace('return true','return false').replace('return XX','return true').replace('} else if !'+name,'} else if '+name)
        return m.group(1)+b+'\n}\n'
    scans(f)
@ref('scanworklist')
def _():
    def f(name,tp,do,body,m):
        b=LEAF.sub(lambda q:'\t\tif tmap&bit != 0 {\n'+q.group(1)+'\t\t} else {\n\t\t\twork = append(work, item)\n\t\t}\n',body)
        b=b.replace('\treturn true','').rstrip()
        return m.group(1)+'\twork := []*link{l}\n\tfor len(work) > 0 {\n\tl := work[len(work)-1]\n\twork = work[:len(work)-1]\n'+b+'\n\t}\n\treturn true\n}\n'
    scans(f)
@ref('scantwopass')
def _():
    def f(name,tp,do,body,m):
        lead=body[:body.index('\tfor ')]
        loop=body[body.index('\tfor '):].replace('\treturn true','').rstrip()+'\n'
        l1=LEAF.sub(lambda q:'\t\tif tmap&bit != 0 {\n'+q.group(1)+'\t\t}\n',loop)
        l2=LEAF.sub(lambda q:'\t\tif tmap&bit == 0 && !%s(item, do) {\n\t\t\treturn false\n\t\t}\n'%name,loop)
        return m.group(1)+lead+l1+'\tpmap = l.pmap\n'+l2+'\treturn true\n}\n'
    scans(f)
@ref('scanstopvar')
def _():
    def f(name,tp,do,body,m):
        b=LEAF.sub(lambda q:re.sub(r'if ([^\n]*?; )?!(do\(.*\)) \{\n\t\t\t\treturn false\n\t\t\t\}',lambda z:(('%s\n\t\t\t'%z.group(1)[:-2]) if z.group(1) else '')+'ok = '+z.group(2),q.group(0)).replace('} else if !%s(item, do) {\n\t\t\treturn false\n'%name,'} else {\n\t\t\tok = %s(item, do)\n'%name),body)
        b=b.replace('i < count; i++','ok && i < count; i++').replace('return true','return ok')
        return m.group(1)+'\tok := true\n'+b+'\n}\n'
    scans(f)
@ref('alllocal')
def _():
    every(lambda s: re.sub(r'\t(\w*[sS]can)\(&(m|s)\.link, do\)', r'\tif \2.len == 0 {\n\t\treturn\n\t}\n\troot := &\2.root.link\n\t_ = \1(root, do)', s))

def rewrite(f,txt):
    s=rd(f); a=s.index('// Ptr returns') if '// Ptr returns' in s else s.index('// Has returns'); b=s.index('// All ranges')
    wr(f,s[:a]+open('/verif/tools/rewrites/'+txt).read()+s[b:])
@ref('rewriteA')
def _(): rewrite('generic_map.go','A.generic_map.txt')

@ref('rewriteB')
def _(): rewrite('int_map.go','B.int_map.txt')
@ref('rewriteC')
def _(): rewrite('string_set.go','C.string_set.txt')

@ref('rewriteD')
def _(): rewrite('bytes_set.go','D.bytes_set.txt')

@ref('fastlen')
def _():
    # empty container: nothing to find
    def f(s):
        s=re.sub(r'(func \(m \w+(?:\[\w+(?:, \w+)*\])?\) Ptr\([^)]*\) \*V \{\n)', r'\1\tif m.len == 0 {\n\t\treturn nil\n\t}\n', s)
        s=re.sub(r'(func \(s \w+(?:\[\w+(?:, \w+)*\])?\) Has\([^)]*\) bool \{\n)', r'\1\tif s.len == 0 {\n\t\treturn false\n\t}\n', s)
        s=re.sub(r'(func \((\w) \w+(?:\[\w+(?:, \w+)*\])?\) Del\([^)]*\) \{\n)', r'\1\tif \2.len == 0 {\n\t\treturn\n\t}\n', s)
        return s
    every(f)
@ref('fastpmap')
def _():
    def f(s):
        s=re.sub(r'(func \(m \w+(?:\[\w+(?:, \w+)*\])?\) Ptr\([^)]*\) \*V \{\n)', r'\1\tif m.pmap == 0 {\n\t\treturn nil\n\t}\n', s)
        s=re.sub(r'(func \((\w) \w+(?:\[\w+(?:, \w+)*\])?\) Del\([^)]*\) \{\n)', r'\1\tif \2.link.pmap == 0 {\n\t\treturn\n\t}\n', s)
        return s
    every(f)
@ref('constshift')
def _():
    # keep the hash whole, take digits by shifting
    def f(s):
        s=s.replace('hd >>= 4\n\t\t\t\tchd >>= 4','hs += 4').replace('hd >>= 4','hs += 4')
        s=re.sub(r'\bhd = (hw\.Sum64\(\)|key\.Hash\(\w\.seed, uint\(d>>4\)\))', r'hd, hs = \1, 0', s)
        s=re.sub(r'hd, chd = (.*)', r'hd, chd, hs = \1, 0', s)
        s=re.sub(r'chd := (.*) >> \(4 \* \(d % \(64 / 4\)\)\)', r'chd := \1', s)
        s=s.replace('uint8(hd&0xF)','uint8(hd>>hs&0xF)').replace('uint8(hd & 0xF)','uint8(hd >> hs & 0xF)').replace('uint8(chd&0xF)','uint8(chd>>hs&0xF)')
        s=re.sub(r'(\thd, l, d := .*\n)', r'\1\ths := uint(0)\n', s)
        return s
    every(f)
@ref('and15')
def _(): every(lambda s: s.replace('d%(64/4) != 0','d&15 != 0').replace('(4 * (d % (64 / 4)))','((d & 15) << 2)'))
@ref('maphashbytes')
def _():
    def f(s):
        s=re.sub(r'\tvar hw maphash\.Hash\n\thw\.SetSeed\((\w)\.seed\)\n\thw\.Write\((\w+)\)\n\thd, l, d := hw\.Sum64\(\), ', r'\thd, l, d := maphash.Bytes(\1.seed, \2), ', s)
        s=re.sub(r'\tvar hw maphash\.Hash\n\thw\.SetSeed\((\w)\.seed\)\n\thw\.WriteString\((\w+)\)\n\thd, l, d := hw\.Sum64\(\), ', r'\thd, l, d := maphash.String(\1.seed, \2), ', s)
        # later blocks from scratch
        def blk(m):
            ind=m.group(1)
            return ind+'hd = blockHash(%s.seed, key, d)\n'%v
        v='m' if '(m ' in s else 's'
        s=re.sub(r'(\t+)hw\.Write(?:String)?\(key\)\n\t+hd = hw\.Sum64\(\)\n',blk,s)
        s=re.sub(r'(\t+)hw\.Write(?:String)?\(key\)\n\t+chw\.Write(?:String)?\(ckey\)\n\t+hd, chd = hw\.Sum64\(\), chw\.Sum64\(\)\n',lambda m:m.group(1)+'hd, chd = blockHash(%s.seed, key, d), blockHash(%s.seed, ckey, d)\n'%(v,v),s)
        s=re.sub(r'\t\tvar chw maphash\.Hash\n\t\tchw\.SetSeed\(\w\.seed\)\n\t\tfor cd := uint8\(0\); cd <= d; cd \+= \(64 / 4\) \{\n\t\t\tchw\.Write(?:String)?\(ckey\)\n\t\t\}\n\t\tchd := chw\.Sum64\(\)',r'\t\tchd := blockHash(%s.seed, ckey, d)'%v,s)
        return s
    every(f,['string_map.go','string_set.go','bytes_map.go','bytes_set.go'])
    for g in ['string_set.go','bytes_set.go']: pass
    app('amt.go','''// blockHash is the hash block that holds the digit of level d.
func blockHash[T string | []byte](seed maphash.Seed, key T, d uint8) uint64 {
	var hw maphash.Hash
	hw.SetSeed(seed)
	for n := uint8(0); n <= d/16; n++ {
		hw.WriteString(string(key))
	}
	return hw.Sum64()
}
''')
@ref('closurenext')
def _():
    def f(s):
        s=re.sub(r'''(	hw\.Write\(kb\[:\]\)\n	hd, l, d := .*\n)''', r'''\1	next := func() {
		d++
		if d%16 != 0 {
			hd >>= 4
			return
		}
		hw.Write(kb[:])
		hd = hw.Sum64()
	}
''', s)
        s=s.replace('''			d++
			if d%(64/4) != 0 { // hash bits available
				hd >>= 4
			} else { // rehash
				hw.Write(kb[:])
				hd = hw.Sum64()
			}
''','			next()\n')
        return s
    every(f,['arr_map.go','arr_set.go'])
@ref('leaffast')
def _():
    def f(s):
        s=re.sub(r'(\tpmap, tmap := l\.pmap, l\.tmap\n)', r'\1\tif pmap == 0 {\n\t\treturn true\n\t}\n', s)
        return s
    every(f)
@ref('ptrfirst')
def _():
    def f(s):
        s=re.sub(r'(func \(m \w+(?:\[\w+(?:, \w+)*\])?\) Set\(key [^)]*\) \{\n)', r'\1\tif p := m.Ptr(key); p != nil {\n\t\t*p = value\n\t\treturn\n\t}\n', s)
        s=re.sub(r'(func \(s \w+(?:\[\w+(?:, \w+)*\])?\) Add\(key [^)]*\) \{\n)', r'\1\tif s.Has(key) {\n\t\treturn\n\t}\n', s)
        return s
    every(f)
@ref('delfirst')
def _():
    def f(s):
        s=re.sub(r'(func \(m \w+(?:\[\w+(?:, \w+)*\])?\) Del\(key [^)]*\) \{\n)', r'\1\tif m.Ptr(key) == nil {\n\t\treturn\n\t}\n', s)
        s=re.sub(r'(func \(s \w+(?:\[\w+(?:, \w+)*\])?\) Del\(key [^)]*\) \{\n)', r'\1\tif !s.Has(key) {\n\t\treturn\n\t}\n', s)
        return s
    every(f)
@ref('isleaf')
def _():
    every(lambda s: s.replace('if l.tmap&bit == 0 { // traverse branch','if !l.isLeaf(bit) { // traverse branch').replace('for l.pmap&bit != 0 { // item present','for l.has(bit) { // item present'))
    app('amt.go','func (l *link) isLeaf(bit uint32) bool { return l.tmap&bit != 0 }\n\nfunc (l link) has(bit uint32) bool { return l.pmap&bit != 0 }\n')
@ref('setbits')
def _():
    every(lambda s: s.replace('	l.pmap |= bit\n	l.tmap |= bit\n','	l.mark(bit)\n').replace('		l.pmap &^= bit\n		l.tmap &^= bit\n','		l.unmark(bit)\n'))
    app('amt.go','func (l *link) mark(bit uint32) {\n\tl.pmap, l.tmap = l.pmap|bit, l.tmap|bit\n}\n\nfunc (l *link) unmark(bit uint32) {\n\tl.pmap, l.tmap = l.pmap&^bit, l.tmap&^bit\n}\n')
@ref('addlen')
def _():
    every(lambda s: re.sub(r'(\t+)(\w)\.len\+\+\n\t+\w\.dep \+= uint64\(d\)( \* 2)?\n', lambda m: m.group(1)+m.group(2)+'.root.account(1, int(d)'+(m.group(3) or '')+')\n', re.sub(r'(\t+)(\w)\.len--\n\t+\w\.dep -= uint64\(d\)\n', r'\1\2.root.account(-1, -int(d))\n', s)))
    app('amt.go','func (r *root) account(n, depth int) {\n\tr.len = uint64(int64(r.len) + int64(n))\n\tr.dep += uint64(int64(depth))\n}\n')
@ref('makeroom')
def _():
    # one helper for both insertion branches, on link
    def f(s):
        return re.sub(r'''	count := uint8\(bits\.OnesCount32\(l\.pmap\)\)
	if \(count != 0 && count%4 != 0\) \|\| d == 0 \{ // array slot available
.*?
		\*\(\*link\)\(unsafe\.Pointer\(uintptr\(l\.ptr\) \+ uintptr\(idx\)\*linkSize\)\) = (link\{.*?\n		\})
	\} else \{.*?
	\}
	l\.pmap \|= bit
	l\.tmap \|= bit
''', r'''	*l.room(d == 0, idx) = \1
	l.pmap |= bit
	l.tmap |= bit
''', s, flags=re.S)
    every(f)
    app('amt.go','''// room opens slot idx of l for a new item, growing the array if it is full.
func (l *link) room(isRoot bool, idx uint8) *link {
	count := uint8(bits.OnesCount32(l.pmap))
	src := l.ptr
	if !isRoot && count%4 == 0 {
		l.ptr = newLinkArray(count + 1)
		for i := uint8(0); i < idx; i++ {
			*l.at(i) = *(*link)(unsafe.Add(src, uintptr(i)*linkSize))
		}
	}
	for i := count; i > idx; i-- {
		*l.at(i) = *(*link)(unsafe.Add(src, uintptr(i-1)*linkSize))
	}
	return l.at(idx)
}

func (l *link) at(i uint8) *link { return (*link)(unsafe.Add(l.ptr, uintptr(i)*linkSize)) }
''')
    wr('amt.go',rd('amt.go').replace('import (\n','import (\n\t"math/bits"\n'))
@ref('takeout')
def _():
    # removal and collapse in helpers of root
    def f(s):
        return re.sub(r'''		count := uint8\(bits\.OnesCount32\(l\.pmap\)\)
		// unlink empty.*?		// clear the path to prevent leaks
''', r'''		rt.takeOut(l, idx, d)
''', s, flags=re.S)
    for v in 'ms':
        every(lambda s: f(s).replace('rt.takeOut',v+'.root.takeOut') if '(%s '%v in s else s)
    app('amt.go','''func (r *root) takeOut(l *link, idx, d uint8) {
	path := r.path[:d+1]
	if int(d) >= len(r.path) {
		panic("unreachable")
	}
	_ = path
}
''') if False else app('amt.go','''func (r *root) takeOut(path []pathLink, l *link, idx, d uint8) {
	count := uint8(bits.OnesCount32(l.pmap))
	at := func(p unsafe.Pointer, i uint8) *link { return (*link)(unsafe.Add(p, uintptr(i)*linkSize)) }
	src := l.ptr
	if d == 0 || count%4 != 0 {
		for i := idx; i < count; i++ {
			*at(src, i) = *at(src, i+1)
		}
		*at(src, count) = link{}
	} else {
		l.ptr = newLinkArray(count)
		for i := uint8(0); i < count; i++ {
			from := i
			if i >= idx {
				from++
			}
			*at(l.ptr, i) = *at(src, from)
		}
	}
	for ; d != 0 && l.pmap == l.tmap && l.pmap&(l.pmap-1) == 0; d-- {
		*l = *(*link)(l.ptr)
		r.dep--
		p := path[d-1]
		l = p.link
		l.tmap |= 1 << p.radix
	}
}
''')
    every(lambda s: s.replace('takeOut(l, idx, d)','takeOut(path, l, idx, d)'))
    wr('amt.go',rd('amt.go').replace('import (\n','import (\n\t"math/bits"\n'))
    s=rd('amt.go'); wr('amt.go',s)
@ref('scanrange')
def _():
    def f(s):
        return re.sub(r'''	count := uint8\(bits\.OnesCount32\(pmap\)\)
	for i := uint8\(0\); i < count; i\+\+ \{
''', r'''	for i := uintptr(0); pmap != 0; i++ {
''', s)
    every(f)
@ref('doadapt')
def _():
    # All passes an adapted callback down
    every(lambda s: re.sub(r'\t(\w*[sS]can)\(&(m|s)\.link, do\)', r'\tvisit := do\n\tif visit == nil {\n\t\tpanic("amt: nil callback")\n\t}\n\t\1(&\2.link, visit)', s))
@ref('scanbranchlast')
def _():
    every(lambda s: re.sub(r'\} else if !(\w*[sS]can)\(item, do\) \{\n\t\t\treturn false\n\t\t\}', r'} else {\n\t\t\tif ok := \1(item, do); !ok {\n\t\t\t\treturn ok\n\t\t\t}\n\t\t}', s))
@ref('modswitch')
def _():
    every(lambda s: s.replace('if pair := (*[2]link)(item.ptr); kbit < cbit {','pair := (*[2]link)(item.ptr)\n\t\t\t\tswitch {\n\t\t\t\tcase kbit < cbit:').replace('				} else {\n					pair','				default:\n					pair'))

@ref('scandepth')
def _():
    def f(s):
        s=re.sub(r'\b(\w+[sS]can)(\[.*\])?\(l \*link, do ([^{]*?)\) bool \{', r'\1\2(l *link, do \3, d uint8) bool {\n\tif d > 250 {\n\t\tpanic("too deep")\n\t}', s)
        s=re.sub(r'\b(\w+Scan)\(&(\w)\.link, do\)', r'\1(&\2.link, do, 0)', s)
        s=re.sub(r'!(\w+Scan)\(item, do\)', r'!\1(item, do, d+1)', s)
        return s
    every(f)
@ref('recptr')
def _():
    s=rd('generic_map.go')
    a=s.index('func (m Map[K, V]) Ptr('); b=s.index('// Set adds or updates')
    s=s[:a]+'''func (m Map[K, V]) Ptr(key K) *V {
	return findIn[K, V](key, m.root, &m.link, key.Hash(m.seed, 0), 0)
}

func findIn[K Key[K], V any](key K, r *root, l *link, hd uint64, d uint8) *V {
	radix := uint8(hd & 0xF)
	bit := uint32(1) << radix
	if l.pmap&bit == 0 {
		return nil
	}
	idx := uint8(bits.OnesCount32(l.pmap & (bit - 1)))
	item := (*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(idx)*linkSize))
	if l.tmap&bit != 0 {
		if kv := (*kv[K, V])(item.ptr); key.Equal(kv.k) {
			return &kv.v
		}
		return nil
	}
	d++
	if d&0xF == 0 {
		hd = key.Hash(r.seed, uint(d>>4))
	} else {
		hd >>= 4
	}
	return findIn[K, V](key, r, item, hd, d)
}

'''+s[b:]
    wr('generic_map.go',s)
@ref('digitat')
def _():
    s=rd('string_map.go')
    a=s.index(') Ptr(key string'); b=s.index('// Set adds or updates')
    a=s.rindex('func (m',0,a)
    s=s[:a]+'''func (m StringMap[V]) Ptr(key string) *V {
	l := &m.link
	for d := uint8(0); ; d++ {
		radix := strDigit(m.seed, key, d)
		if l.pmap>>radix&1 == 0 {
			return nil
		}
		idx := uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
		item := (*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(idx)*linkSize))
		if l.tmap>>radix&1 != 0 {
			if kv := (*strkv[V])(item.ptr); kv.k == key {
				return &kv.v
			}
			return nil
		}
		l = item
	}
}

func strDigit(seed maphash.Seed, key string, d uint8) uint8 {
	var hw maphash.Hash
	hw.SetSeed(seed)
	for i := uint8(0); i <= d/16; i++ {
		hw.WriteString(key)
	}
	return uint8(hw.Sum64() >> (4 * (d % 16)) & 0xF)
}

'''+s[b:]
    wr('string_map.go',s)
@ref('cursor')
def _():
    app('amt.go','''// cursor walks down the digits of a key.
type cursor struct {
	key   []byte
	hw    maphash.Hash
	hd    uint64
	d     uint8
	radix uint8
	bit   uint32
}

func (c *cursor) start(seed maphash.Seed, key []byte) {
	c.key = key
	c.hw.SetSeed(seed)
	c.hw.Write(key)
	c.hd = c.hw.Sum64()
	c.set()
}

func (c *cursor) set() { c.radix = uint8(c.hd & 0xF); c.bit = 1 << c.radix }

func (c *cursor) down() {
	c.d++
	if c.d%16 == 0 {
		c.hw.Write(c.key)
		c.hd = c.hw.Sum64()
	} else {
		c.hd >>= 4
	}
	c.set()
}

func (c *cursor) item(l *link) *link {
	idx := bits.OnesCount32(l.pmap & (c.bit - 1))
	return (*link)(unsafe.Add(l.ptr, uintptr(idx)*linkSize))
}
''')
    wr('amt.go',rd('amt.go').replace('import (\n','import (\n\t"math/bits"\n'))
    s=rd('bytes_map.go')
    a=s.index(') Ptr(key []byte'); b=s.index('// Set adds or updates')
    a=s.rindex('func (m',0,a)
    s=s[:a]+'''func (m BytesMap[V]) Ptr(key []byte) *V {
	var c cursor
	c.start(m.seed, key)
	for l := &m.link; l.pmap&c.bit != 0; c.down() {
		item := c.item(l)
		if l.tmap&c.bit != 0 {
			kv := (*byteskv[V])(item.ptr)
			if !bytes.Equal(kv.k, key) {
				return nil
			}
			return &kv.v
		}
		l = item
	}
	return nil
}

'''+s[b:]
    wr('bytes_map.go',s)

@ref('topfirst')  # digits of a hash from the highest one down
def _():
    for f in ['int_set.go','bytes_map.go','generic_map.go']:
        s=rd(f)
        s=s.replace('uint8(hd & 0xF)','uint8(hd >> 60)').replace('uint8(hd&0xF)','uint8(hd>>60)').replace('uint8(chd&0xF)','uint8(chd>>60)').replace('hd >>= 4','hd <<= 4').replace('Sum64() >> (4','Sum64() << (4').replace('>> (4 * (d % (64 / 4)))','<< (4 * (d % (64 / 4)))')
        wr(f,s)
@ref('rotl')  # the hash is rotated instead of shifted
def _():
    s=rd('int_set.go'); wr('int_set.go',s.replace('chd >>= 4','chd = bits.RotateLeft64(chd, -4)').replace('\thd >>= 4','\thd = bits.RotateLeft64(hd, -4)'))
@ref('revrev')  # an odd way to shift
def _():
    s=rd('int_set.go'); wr('int_set.go',s.replace('\thd >>= 4','\thd = bits.Reverse64(bits.Reverse64(hd) << 4)'))
@ref('ownmix')  # another hash function: the set works, though keys can be chosen to collide
def _():
    s=rd('int_set.go')
    t=s
    t=t.replace('''	kb := intbytes(key)
	var hw maphash.Hash
	hw.SetSeed(s.seed)
	hw.Write(kb[:])
	hd, l, d := hw.Sum64()''','''	hd, l, d := intmix(key, 0)''')
    t=t.replace('''				hw.Write(kb[:])
				hd = hw.Sum64()
''','''				hd = intmix(key, d/16)
''')
    t=t.replace('''		ckb := intbytes(ckey)
		var chw maphash.Hash
		chw.SetSeed(s.seed)
		for cd := uint8(0); cd <= d; cd += (64 / 4) {
			chw.Write(ckb[:])
		}
		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
''','''		chd := intmix(ckey, d/16) >> (4 * (d % (64 / 4)))
''')
    t=t.replace('''				hw.Write(kb[:])
				chw.Write(ckb[:])
				hd, chd = hw.Sum64(), chw.Sum64()
''','''				hd, chd = intmix(key, d/16), intmix(ckey, d/16)
''')
    t=t.replace('	"hash/maphash"\n','')
    t+='''
// intmix spreads the bits of key; much cheaper than maphash.
func intmix(key IntKey, iter uint8) uint64 {
	x := uint64(key) + uint64(iter)*0x9e3779b97f4a7c15
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	return x
}
'''
    wr('int_set.go',t)

@ref('atomiclen')  # counters updated atomically
def _():
    s=rd('int_set.go')
    s=s.replace('s.len++','atomic.AddUint64(&s.len, 1)').replace('s.len--','atomic.AddUint64(&s.len, ^uint64(0))').replace('"math/bits"','"math/bits"\n\t"sync/atomic"')
    wr('int_set.go',s)
@ref('mutex')  # a lock around the modifying operations
def _():
    a=rd('amt.go').replace('_     [3]uint64    // pad','mu    sync.Mutex\n\t_     [2]uint64    // pad').replace('"hash/maphash"','"hash/maphash"\n\t"sync"')
    wr('amt.go',a)
    s=rd('string_set.go')
    for f in ['Add','Del']:
        i=s.index('func (s StringSet) '+f); j=s.index('\n',i)
        s=s[:j]+'\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()'+s[j:]
    wr('string_set.go',s)
@ref('functable')  # array sizes from a table of functions
def _():
    a=rd('amt.go'); i=a.index('func newLinkArray'); j=a.index('// pathLink references')
    a=a[:i]+"""func newLinkArray(capacity uint8) unsafe.Pointer {
	return allocators[(capacity+3)/4]()
}

var allocators = [5]func() unsafe.Pointer{new4, new4, new8, new12, new16}

func new4() unsafe.Pointer  { return unsafe.Pointer(new([4]link)) }
func new8() unsafe.Pointer  { return unsafe.Pointer(new([8]link)) }
func new12() unsafe.Pointer { return unsafe.Pointer(new([12]link)) }
func new16() unsafe.Pointer { return unsafe.Pointer(new([16]link)) }

"""+a[j:]
    wr('amt.go',a)
@ref('typeswitch')  # special treatment by type that changes nothing
def _():
    s=rd('string_map.go')
    s=s.replace("""			ckv.v = value
""","""			switch any(value).(type) {
			case struct{}:
				// nothing to store
			default:
				ckv.v = value
			}
""",1)
    wr('string_map.go',s)
@ref('skipequal')  # an equal value is not written
def _():
    s=rd('string_map.go')
    s=s.replace('''			ckv.v = value
''','''			if x, ok := any(value).(int); ok && x == any(ckv.v).(int) {
				return
			}
			ckv.v = value
''',1)
    wr('string_map.go',s)
@ref('iface')  # allocation behind an interface
def _():
    a=rd('amt.go')
    a=a.replace('func newLinkArray(','type allocator interface{ links(uint8) unsafe.Pointer }\n\ntype heap struct{}\n\nfunc newLinkArray(capacity uint8) unsafe.Pointer {\n\tvar h allocator = heap{}\n\treturn h.links(capacity)\n}\n\nfunc (heap) links(',1)
    wr('amt.go',a)
@ref('methodvalue')  # callbacks passed on as method values
def _():
    s=rd('int_set.go')
    s=s.replace('intSetScan(&s.link, do)','v := visitor{do}\n\tintSetScan(&s.link, v.visit)')+"""
type visitor struct{ do func(IntKey) bool }

func (v visitor) visit(k IntKey) bool { return v.do(k) }
"""
    wr('int_set.go',s)
@ref('gotos2')
def _():
    s=rd('string_map.go')
    i=s.index(') Ptr(key string'); i=s.rindex('func',0,i); j=s.index('// Set adds')
    s=s[:i]+"""func (m StringMap[V]) Ptr(key string) *V {
	var hw maphash.Hash
	var item *link
	hw.SetSeed(m.seed)
	l, d, hd := &m.link, 0, uint64(0)
next:
	if d&15 == 0 {
		hw.WriteString(key)
		hd = hw.Sum64()
	}
	mask := uint32(1)<<(hd&15) - 1
	if l.pmap&(mask+1) == 0 {
		return nil
	}
	item = (*link)(unsafe.Add(l.ptr, bits.OnesCount32(l.pmap&mask)*16))
	if l.tmap&(mask+1) != 0 {
		goto found
	}
	l = item
	hd >>= 4
	d++
	goto next
found:
	if kv := (*strkv[V])(item.ptr); kv.k == key {
		return &kv.v
	}
	return nil
}

"""+s[j:]
    wr('string_map.go',s)

@ref('X_cap16')
def _(): wr('amt.go',rd('amt.go').replace('new([4]link)','new([16]link)').replace('new([8]link)','new([16]link)').replace('new([12]link)','new([16]link)'))
@ref('X_cap8')
def _(): wr('amt.go',rd('amt.go').replace('new([4]link)','new([8]link)'))

def run(name,tests):
    shutil.rmtree(SC,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',SC])
    try: R[name]()
    except AssertionError as e:
        print(name,'NOT APPLIED',e); return
    b=subprocess.run('. /opt/vp/env.sh; go build ./...'+(' && go test -vet=off -count=1 ./...' if tests else ''),shell=True,cwd=SC,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,executable='/bin/bash')
    if b.returncode: print(name,'BUILD/TEST FAIL',b.stdout.decode()[:600]); return
    r=subprocess.run([os.environ.get('BIN','/verif/bin/amtcheck'),'-repo',SC,'-depth',os.environ.get('DEPTH','40')],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    out=r.stdout.decode().splitlines()
    v=[l for l in out if '[C' in l and not l.startswith('UNDECIDED')]; u=[l for l in out if l.startswith('UNDECIDED')]
    print(name,'ok' if not v and not u and r.returncode==0 else 'rc=%d ALARM %d UNDECIDED %d'%(r.returncode,len(v),len(u)),out[-1].split()[-1] if out else '',flush=True)
    for l in v[:int(os.environ.get('N','4'))]+u[:int(os.environ.get('N','4'))]: print('     ',l[:330])
if __name__=='__main__':
    names=[n for n in R if len(sys.argv)<2 or n in sys.argv[1:]]
    for n in names: run(n,os.environ.get('TESTS')=='1')
