package ref

import (
	"bytes"
	"encoding/binary"
	"sort"
	"strings"
)

// MOLayout of a binary catalog.
type MOLayout struct {
	Big    bool
	Minor  uint16
	Major  uint16
	Hash   int // size of a (zero) hash table
	Order  int // 0 orig table, trans table, strings; 1 trans table first; 2 strings first, tables at the end; 3 strings interleaved, padding
	Sorted bool
	Share  bool   // equal strings stored once
	Pack   int    // 1: strings stored within others, with the NUL that ends them; 2: within others anywhere
	Last   bool   // the header entry last
	Gap    [5]int // bytes that belong to nothing: after the header, before the second table, before the third part, between strings, at the end
}

// MOImage is an encoded file with the positions of its fields.
type MOImage struct {
	Data   []byte
	Fields []int // offsets of all 32-bit words of header and tables
}

// MOStrings gives the original and translated strings in file order.
func MOStrings(d *Doc, sorted, last bool) (ids, strs []string) {
	type p struct{ a, b string }
	var ps []p
	if d.Header != nil {
		ps = append(ps, p{"", strings.Join(d.Header, "\n") + "\n"})
	}
	for _, e := range d.Ents {
		id := e.ID
		if e.Ctx != "" {
			id = e.Ctx + "\x04" + id
		}
		if e.Plural != "" {
			id += "\x00" + e.Plural
		}
		max := 0
		for _, f := range e.Forms {
			if f.I > max {
				max = f.I
			}
		}
		fs := make([]string, max+1)
		for _, f := range e.Forms {
			fs[f.I] = f.S
		}
		ps = append(ps, p{id, strings.Join(fs, "\x00")})
	}
	if sorted {
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].a < ps[j].a })
	}
	if last && len(ps) > 1 && ps[0].a == "" {
		ps = append(ps[1:], ps[0])
	}
	for _, x := range ps {
		ids = append(ids, x.a)
		strs = append(strs, x.b)
	}
	return
}

// WriteMO encodes the document.
func WriteMO(d *Doc, l MOLayout) *MOImage {
	ids, strs := MOStrings(d, l.Sorted, l.Last)
	n := len(ids)
	var bo binary.ByteOrder = binary.LittleEndian
	if l.Big {
		bo = binary.BigEndian
	}
	hdr := 28
	var all []string
	if l.Order == 3 {
		for i := range ids {
			all = append(all, ids[i], strs[i])
		}
	} else {
		all = append(append(all, ids...), strs...)
	}
	var blob []byte
	pos := make([]int, len(all))
	seen := map[string]int{}
	order := make([]int, len(all))
	for i := range order {
		order[i] = i
	}
	if l.Pack > 0 { // longest first
		sort.SliceStable(order, func(i, j int) bool { return len(all[order[i]]) > len(all[order[j]]) })
	}
	for _, i := range order {
		s := all[i]
		if l.Pack > 0 && len(all) <= 1000 {
			in := s
			if l.Pack == 1 {
				in += "\x00"
			}
			if o := bytes.Index(blob, []byte(in)); o >= 0 && len(blob) > 0 {
				pos[i] = o
				continue
			}
		}
		if o, ok := seen[s]; ok && (l.Share || l.Pack > 0) {
			pos[i] = o
			continue
		}
		if l.Order == 3 {
			for len(blob)%4 != 0 {
				blob = append(blob, 0xAA)
			}
		}
		for k := 0; k < l.Gap[3]; k++ {
			blob = append(blob, 0xAA)
		}
		seen[s] = len(blob)
		pos[i] = len(blob)
		blob = append(blob, s...)
		blob = append(blob, 0)
	}
	idTab, strTab, hashTab, strs0 := 0, 0, 0, 0
	off := hdr + l.Gap[0]
	switch l.Order {
	case 0, 3:
		idTab = off
		strTab = idTab + 8*n + l.Gap[1]
		hashTab = strTab + 8*n
		strs0 = hashTab + 4*l.Hash + l.Gap[2]
		off = strs0 + len(blob)
	case 1:
		strTab = off
		hashTab = strTab + 8*n
		idTab = hashTab + 4*l.Hash + l.Gap[1]
		strs0 = idTab + 8*n + l.Gap[2]
		off = strs0 + len(blob)
	case 2:
		strs0 = off
		off += len(blob)
		for off%4 != 0 {
			off++
		}
		hashTab = off
		strTab = hashTab + 4*l.Hash + l.Gap[1]
		idTab = strTab + 8*n + l.Gap[2]
		off = idTab + 8*n
	}
	b := make([]byte, off+l.Gap[4])
	if l.Gap != [5]int{} {
		for i := range b {
			b[i] = 0xAA
		}
	}
	img := &MOImage{}
	put := func(at int, v uint32) {
		bo.PutUint32(b[at:], v)
		img.Fields = append(img.Fields, at)
	}
	put(0, 0x950412de)
	bo.PutUint16(b[4:], l.Major)
	bo.PutUint16(b[6:], l.Minor)
	img.Fields = append(img.Fields, 4)
	put(8, uint32(n))
	put(12, uint32(idTab))
	put(16, uint32(strTab))
	put(20, uint32(l.Hash))
	put(24, uint32(hashTab))
	copy(b[strs0:], blob)
	at := func(i int, isID bool) int {
		if l.Order == 3 {
			if isID {
				return pos[2*i]
			}
			return pos[2*i+1]
		}
		if isID {
			return pos[i]
		}
		return pos[n+i]
	}
	for i := 0; i < n; i++ {
		put(idTab+8*i, uint32(len(ids[i])))
		put(idTab+8*i+4, uint32(strs0+at(i, true)))
	}
	for i := 0; i < n; i++ {
		put(strTab+8*i, uint32(len(strs[i])))
		put(strTab+8*i+4, uint32(strs0+at(i, false)))
	}
	img.Data = b
	return img
}
