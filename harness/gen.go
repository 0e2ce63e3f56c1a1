package main

// Deterministic construction of keys and values from small integers, and the
// rapid generators that draw those integers.  Everything random in a case is
// drawn by rapid; a case is plain data (JSON) and running it is a pure
// function of the case and of the code under test.

import (
	"encoding/binary"
	"hash/fnv"
	"sync"
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// rng is a deterministic stream seeded by drawn integers.
type rng struct{ s uint64 }

func newRng(a, b int) *rng { return &rng{mix(uint64(a)) ^ mix(uint64(b)+0x1234567)} }
func (r *rng) u64() uint64 { r.s++; return mix(r.s) }
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// Key families.  keyOf(fam, i) is injective in i for a fixed family.
const (
	famTiny     = iota // every byte string of length 0, 1, 2, ... in turn
	famDec             // k00000012
	famMid             // 240 common bytes + 4
	famEdge            // lengths 240..263: around the overflow limit, common prefix
	famLong            // 300 bytes, 296 common
	famNested          // 's' * i: every key a prefix of the next
	famRand            // random content, length 4..403
	famSlot            // equal low 10 bits of the hash
	famCollide         // pairs with equal 64-bit hash
	famHuge            // 1 KB .. 70 KB
	famShort           // lengths 23..26, random content (limit of stored hash sums)
	famSentinel        // spellings near MIN_KEY / MAX_KEY
	famDiff            // 300-byte keys differing in one byte at 240..259
	famHigh            // 3 random bytes (binary order, bytes >= 0x80)
	famWide            // 256 bytes: the longest inline key, common prefix
	famJumble          // lengths 7..303, short and long ones interleaved in random order
	famSpread          // 7 distinct bytes first, lengths 230..256
	famVast            // 16 MiB and some bytes
	famBucket          // equal low 4 bits of the hash: crowded slots that split and merge
	famHole            // 600 KB
	numFams
)

var famNames = []string{"tiny", "dec", "mid", "edge", "long", "nested", "rand", "slot", "collide", "huge", "short", "sentinel", "diff", "high", "wide", "jumble", "spread", "vast", "bucket", "hole"}

func be4(i int) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], uint32(i)); return b[:] }

func rep(c byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return b
}

func sum64(k []byte) uint64 { h := fnv.New64a(); h.Write(k); return h.Sum64() }

// Two 20-byte strings with the same FNV-1a-64 sum; any common suffix keeps it.
const collA, collB = "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"

// keysLike are keys whose hashes agree in some of their bits.
type keysLike struct {
	sync.Mutex
	mask, want uint64
	make       func(i int) []byte
	k          [][]byte
	next       int
}

var slotKeys = keysLike{mask: 0x3ff, want: 0x155, make: func(i int) []byte { return append([]byte("sl"), be4(i)...) }}

var bucketKeys = keysLike{mask: 0xf, want: 0xb, make: func(i int) []byte {
	k := append([]byte("bk"), be4(i)...)
	if i%5 == 0 {
		k = append(k, rep('b', 15+i%31)...)
	}
	return k
}}

func (l *keysLike) key(i int) []byte {
	l.Lock()
	defer l.Unlock()
	for len(l.k) <= i {
		k := l.make(l.next)
		l.next++
		if sum64(k)&l.mask == l.want {
			l.k = append(l.k, k)
		}
	}
	return append([]byte(nil), l.k[i]...)
}

var sentinelSpellings = []string{"MIN_KEY", "MAX_KEY", "MIN_KE", "MAX_KE", "MIN_KEY\x00", "MAX_KEY\x00", "MIN_KEZ", "MAX_KEX", "", "\xff\xff", "M", "N"}

func keyOf(fam, i int) []byte {
	if i < 0 {
		i = -i
	}
	switch fam {
	case famTiny:
		var b []byte
		for i > 0 {
			i--
			b = append(b, byte(i))
			i >>= 8
		}
		return b
	case famDec:
		d := []byte("k00000000")
		for j := 8; j > 0 && i > 0; j-- {
			d[j] = '0' + byte(i%10)
			i /= 10
		}
		return d
	case famMid:
		return append(rep('p', 240), be4(i)...)
	case famEdge:
		return append(rep('q', 236+i%24), be4(i/24)...)
	case famLong:
		return append(rep('r', 296), be4(i)...)
	case famNested:
		return rep('s', i%3000)
	case famRand:
		n := int(mix(uint64(i)) % 400)
		b := fillBytes(n, uint64(i)*7+1)
		return append(b, be4(i)...)
	case famSlot:
		return slotKeys.key(i % 4000)
	case famBucket:
		return bucketKeys.key(i % 40000)
	case famCollide:
		p := collA
		if i&1 == 1 {
			p = collB
		}
		j := i / 2
		switch j % 3 {
		case 0:
			return append([]byte(p), be4(j)...)
		case 1:
			return append([]byte(p), append([]byte("x"), be4(j)...)...)
		default:
			return append(append([]byte(p), rep('y', 40)...), be4(j)...)
		}
	case famHuge:
		sizes := []int{1000, 5000, 16300, 16400, 17000, 33000, 66000, 70000}
		return append(rep('h', sizes[i%8]), be4(i)...)
	case famShort:
		return append(fillBytes(19+i%4, uint64(i)*11+5), be4(i)...)
	case famSentinel:
		n := len(sentinelSpellings)
		return append([]byte(sentinelSpellings[i%n]), rep('z', i/n)...)
	case famDiff:
		b := rep('m', 300)
		b[240+i%20] = byte('a' + (i/20)%20)
		return append(b, be4(i/400)...)
	case famHigh:
		x := mix(uint64(i))
		return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(i >> 8), byte(i)}
	case famWide:
		return append(rep('w', 252), be4(i)...)
	case famJumble:
		x := mix(uint64(i))
		b := append([]byte{byte(x), byte(x >> 8), byte(x >> 16)}, be4(i)...)
		if x>>24%3 > 0 {
			b = append(b, rep('j', 90+int(x>>32%206))...)
		}
		return b
	case famSpread:
		x := mix(uint64(i))
		b := append([]byte{byte(x), byte(x >> 8), byte(x >> 16)}, be4(i)...)
		return append(b, rep('o', 223+int(x>>32%27))...)
	}
	if fam == famVast {
		return append(rep('v', 1<<24-2+i%6), be4(i)...)
	}
	if fam == famHole {
		return append(rep('0', 600000), be4(i)...)
	}
	panic("family")
}

// famLimit bounds the indices of a family whose keys are costly or finite.
func famLimit(fam int) int {
	switch fam {
	case famNested:
		return 3000
	case famSlot:
		return 2000
	case famHuge:
		return 64
	case famVast:
		return 12
	case famBucket:
		return 40000
	case famHole:
		return 8
	case famDiff:
		return 4000
	}
	return 1 << 24
}

func fillBytes(n int, salt uint64) []byte {
	b := make([]byte, n)
	s := mix(salt)
	for i := 0; i < n; {
		x := mix(s)
		s++
		for j := 0; j < 8 && i < n; j++ {
			b[i] = byte(x)
			x >>= 8
			i++
		}
	}
	return b
}

// Value size classes, roughly from simple to heavy.
var valSizes = []int{
	0, 1, 3, 8, 20, 60, 100, 119, 120, 121, 122, 127, 128, 129, 130, 131, // 0..15
	200, 247, 248, 249, 250, 251, 376, 377, 378, 500, 1000, 2000, // 16..27
	4000, 8170, 8192, 8200, 16383, 16384, 16385, 16504, 16505, 16506, 20000, // 28..38
	65000, 65500, 65536, 70000, 131072, 200000, // 39..44
	1048000, 1048576, 1100000, 3000000, // 45..48
	1<<24 - 1, 1<<24 + 130, 1<<25 + 121, // 49..51
	1<<28 + 130, 1<<31 + 130, // 52, 53
}

const (
	valSmallMax = 15
	valMidMax   = 27
	valBigMax   = 38
	valHugeMax  = 44

	val16M = 49
	val2G  = 53
)

func valOf(class, salt int) []byte {
	if class < 0 {
		class = -class
	}
	n := valSizes[class%len(valSizes)]
	if n <= 4096 {
		return fillBytes(n, uint64(salt)*31+uint64(class))
	}
	b := make([]byte, n)
	s := fillBytes(1021, uint64(salt)*31+uint64(class))
	for i := 0; i < n; {
		i += copy(b[i:], s)
	}
	binary.BigEndian.PutUint64(b[n-8:], mix(uint64(salt)))
	return b
}
