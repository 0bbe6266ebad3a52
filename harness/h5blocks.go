package main

// The blocks of an HDF5 file that carry their own checksum, found by their signatures, and the
// checksum itself (Jenkins' lookup3), written from the file format specification.

import (
	"bytes"
	"encoding/binary"
	"math/bits"
)

func lookup3(k []byte) uint32 {
	a := uint32(0xdeadbeef) + uint32(len(k))
	b, c := a, a
	le := binary.LittleEndian
	for len(k) > 12 {
		a += le.Uint32(k)
		b += le.Uint32(k[4:])
		c += le.Uint32(k[8:])
		a -= c
		a ^= bits.RotateLeft32(c, 4)
		c += b
		b -= a
		b ^= bits.RotateLeft32(a, 6)
		a += c
		c -= b
		c ^= bits.RotateLeft32(b, 8)
		b += a
		a -= c
		a ^= bits.RotateLeft32(c, 16)
		c += b
		b -= a
		b ^= bits.RotateLeft32(a, 19)
		a += c
		c -= b
		c ^= bits.RotateLeft32(b, 4)
		b += a
		k = k[12:]
	}
	if len(k) == 0 {
		return c
	}
	var t [12]byte
	copy(t[:], k)
	a += le.Uint32(t[:])
	b += le.Uint32(t[4:])
	c += le.Uint32(t[8:])
	c ^= b
	c -= bits.RotateLeft32(b, 14)
	a ^= c
	a -= bits.RotateLeft32(c, 11)
	b ^= a
	b -= bits.RotateLeft32(a, 25)
	c ^= b
	c -= bits.RotateLeft32(b, 16)
	a ^= c
	a -= bits.RotateLeft32(c, 4)
	b ^= a
	b -= bits.RotateLeft32(a, 14)
	c ^= b
	c -= bits.RotateLeft32(b, 24)
	return c
}

// ckBlock is a checksummed block: bytes [from, from+n), the sum at sum. Direct blocks of fractal
// heaps have theirs inside, computed with the field zero.
type ckBlock struct {
	sig          string
	from, n, sum int
}

func (k ckBlock) compute(b []byte) uint32 {
	if k.sum >= k.from && k.sum < k.from+k.n {
		t := append([]byte{}, b[k.from:k.from+k.n]...)
		copy(t[k.sum-k.from:], []byte{0, 0, 0, 0})
		return lookup3(t)
	}
	return lookup3(b[k.from : k.from+k.n])
}

func (k ckBlock) valid(b []byte) bool {
	if k.from < 0 || k.n < 0 || k.from+k.n > len(b) || k.sum+4 > len(b) {
		return false
	}
	return k.compute(b) == binary.LittleEndian.Uint32(b[k.sum:])
}

func (k ckBlock) fix(b []byte) {
	binary.LittleEndian.PutUint32(b[k.sum:], k.compute(b))
}

// ckBlocks finds the checksummed blocks of a file. Candidates whose checksum is not right (a
// signature inside data) are left out.
func ckBlocks(b []byte) []ckBlock {
	var out []ckBlock
	le := binary.LittleEndian
	add := func(k ckBlock) bool {
		if k.valid(b) {
			out = append(out, k)
			return true
		}
		return false
	}
	if len(b) >= 48 && string(b[:8]) == "\x89HDF\r\n\x1a\n" && b[8] >= 2 {
		add(ckBlock{"superblock", 0, 44, 44})
	}
	for p := 0; p+8 < len(b); p++ {
		switch string(b[p : p+4]) {
		case "OHDR":
			fl := b[p+5]
			q := p + 6
			if fl&0x20 != 0 {
				q += 16
			}
			if fl&0x10 != 0 {
				q += 4
			}
			sz := 0
			if q+8 > len(b) {
				continue
			}
			switch fl & 3 {
			case 0:
				sz = int(b[q])
			case 1:
				sz = int(le.Uint16(b[q:]))
			case 2:
				sz = int(le.Uint32(b[q:]))
			default:
				continue
			}
			q += 1 << (fl & 3)
			add(ckBlock{"OHDR", p, q + sz - p, q + sz})
		case "OCHK":
			for n := 4; n < 1<<13 && p+n+4 <= len(b); n++ {
				if le.Uint32(b[p+n:]) != 0 && add(ckBlock{"OCHK", p, n, p + n}) {
					break
				}
			}
		case "BTHD":
			add(ckBlock{"BTHD", p, 34, p + 34})
		case "BTLF", "BTIN":
			for n := 6; n < 4096 && p+n+4 <= len(b); n++ {
				if le.Uint32(b[p+n:]) != 0 && add(ckBlock{string(b[p : p+4]), p, n, p + n}) {
					break
				}
			}
		case "FRHP":
			add(ckBlock{"FRHP", p, 142, p + 142})
		case "FHIB":
			for n := 13; n < 4096 && p+n+4 <= len(b); n++ {
				if le.Uint32(b[p+n:]) != 0 && add(ckBlock{"FHIB", p, n, p + n}) {
					break
				}
			}
		case "FHDB":
			// signature, version, heap address, block offset (1-8 bytes), checksum; sizes are powers of two
		direct:
			for off := 13 + 1; off <= 13+8; off++ {
				for n := 512; n <= 1<<16 && p+n <= len(b); n *= 2 {
					if add(ckBlock{"FHDB", p, n, p + off}) {
						break direct
					}
				}
			}
		}
	}
	return out
}

func isH5(b []byte) bool { return bytes.HasPrefix(b, []byte("\x89HDF")) }
