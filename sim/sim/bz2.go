package sim

import (
	"bytes"
	"sort"
)

// A small bzip2 encoder (the standard library only reads bzip2).

type bitw struct {
	b   bytes.Buffer
	acc uint64
	n   uint
}

func (w *bitw) put(v uint64, n uint) {
	for n > 32 {
		w.put(v>>32, n-32)
		v &= 1<<32 - 1
		n = 32
	}
	w.acc = w.acc<<n | v
	w.n += n
	for w.n >= 8 {
		w.b.WriteByte(byte(w.acc >> (w.n - 8)))
		w.n -= 8
	}
	w.acc &= 1<<w.n - 1
}

var bzTab = func() (t [256]uint32) {
	for i := range t {
		c := uint32(i) << 24
		for j := 0; j < 8; j++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return
}()

// Bzip2 compresses d in blocks of at most block bytes.
func Bzip2(d []byte, block int) []byte {
	w := &bitw{}
	w.b.WriteString("BZh1")
	var sum uint32
	for len(d) > 0 {
		n := min(block, len(d), 70000)
		crc := ^uint32(0)
		for _, c := range d[:n] {
			crc = crc<<8 ^ bzTab[byte(crc>>24)^c]
		}
		crc = ^crc
		sum = (sum<<1 | sum>>31) ^ crc
		bzBlock(w, d[:n], crc)
		d = d[n:]
	}
	w.put(0x177245385090, 48)
	w.put(uint64(sum), 32)
	if w.n > 0 {
		w.put(0, 8-w.n)
	}
	return w.b.Bytes()
}

func bzBlock(w *bitw, d []byte, crc uint32) {
	// runs of four to 255 equal bytes
	var s []byte
	for i := 0; i < len(d); {
		j := i
		for j < len(d) && d[j] == d[i] && j-i < 255 {
			j++
		}
		if k := j - i; k >= 4 {
			s = append(s, d[i], d[i], d[i], d[i], byte(k-4))
		} else {
			s = append(s, d[i:j]...)
		}
		i = j
	}
	// rotations in order (doubling)
	n := len(s)
	rank, tmp, idx := make([]int, n), make([]int, n), make([]int, n)
	for i, c := range s {
		rank[i], idx[i] = int(c), i
	}
	for k := 0; ; k = max(1, 2*k) {
		key := func(i int) (int, int) {
			if k == 0 {
				return rank[i], 0
			}
			return rank[i], rank[(i+k)%n]
		}
		sort.Slice(idx, func(a, b int) bool {
			a1, a2 := key(idx[a])
			b1, b2 := key(idx[b])
			if a1 != b1 {
				return a1 < b1
			}
			if a2 != b2 {
				return a2 < b2
			}
			return idx[a] < idx[b]
		})
		r := 0
		for i, x := range idx {
			if i > 0 {
				a1, a2 := key(idx[i-1])
				b1, b2 := key(x)
				if a1 != b1 || a2 != b2 {
					r++
				}
			}
			tmp[x] = r
		}
		copy(rank, tmp)
		if r == n-1 || k >= n {
			break
		}
	}
	orig := 0
	last := make([]byte, n)
	for i, x := range idx {
		if x == 0 {
			orig = i
		}
		last[i] = s[(x+n-1)%n]
	}
	var used [256]bool
	for _, c := range s {
		used[c] = true
	}
	w.put(0x314159265359, 48)
	w.put(uint64(crc), 32)
	w.put(0, 1)
	w.put(uint64(orig), 24)
	var mtf []byte
	var m16 uint64
	for i := 0; i < 16; i++ {
		m16 <<= 1
		for j := 0; j < 16; j++ {
			if used[i*16+j] {
				m16 |= 1
				break
			}
		}
	}
	w.put(m16, 16)
	for i := 0; i < 16; i++ {
		if m16>>(15-i)&1 == 0 {
			continue
		}
		for j := 0; j < 16; j++ {
			if used[i*16+j] {
				w.put(1, 1)
				mtf = append(mtf, byte(i*16+j))
			} else {
				w.put(0, 1)
			}
		}
	}
	alpha := len(mtf) + 2
	var sym []int
	run := 0
	flush := func() {
		for run > 0 {
			if run&1 == 1 {
				sym = append(sym, 0)
				run = (run - 1) / 2
			} else {
				sym = append(sym, 1)
				run = (run - 2) / 2
			}
		}
	}
	for _, c := range last {
		p := bytes.IndexByte(mtf, c)
		if p == 0 {
			run++
			continue
		}
		flush()
		sym = append(sym, p+1)
		copy(mtf[1:p+1], mtf[:p])
		mtf[0] = c
	}
	flush()
	sym = append(sym, alpha-1)
	// a complete code with two lengths
	k := uint(0)
	for 1<<k < alpha {
		k++
	}
	short := 1<<k - alpha
	code := func(i int) (uint64, uint) {
		if i < short {
			return uint64(i), k - 1
		}
		return uint64(short*2 + (i - short)), k
	}
	sel := (len(sym) + 49) / 50
	w.put(2, 3)
	w.put(uint64(sel), 15)
	for i := 0; i < sel; i++ {
		w.put(0, 1)
	}
	for t := 0; t < 2; t++ {
		_, cur := code(0)
		w.put(uint64(cur), 5)
		for i := 0; i < alpha; i++ {
			_, l := code(i)
			for cur < l {
				w.put(2, 2)
				cur++
			}
			w.put(0, 1)
		}
	}
	for _, x := range sym {
		c, l := code(x)
		w.put(c, l)
	}
}
