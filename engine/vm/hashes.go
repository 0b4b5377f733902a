package vm

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/bits"
)

func sum256(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
func sum512(b []byte) []byte { s := sha512.Sum512(b); return s[:] }
func sum1(b []byte) []byte   { s := sha1.Sum(b); return s[:] }
func sumMD5(b []byte) []byte { s := md5.Sum(b); return s[:] }

const (
	xp1 uint64 = 11400714785074694791
	xp2 uint64 = 14029467366897019727
	xp3 uint64 = 1609587929392839161
	xp4 uint64 = 9650029242287828579
	xp5 uint64 = 2870177450012600261
)

func xround(acc, in uint64) uint64 {
	acc += in * xp2
	acc = bits.RotateLeft64(acc, 31)
	return acc * xp1
}

func xmerge(acc, v uint64) uint64 {
	acc ^= xround(0, v)
	return acc*xp1 + xp4
}

func xxh64(b []byte) uint64 {
	n := uint64(len(b))
	var h uint64
	if len(b) >= 32 {
		p1, p2 := xp1, xp2
		v1, v2, v3, v4 := p1+p2, p2, uint64(0), -p1
		for len(b) >= 32 {
			v1 = xround(v1, binary.LittleEndian.Uint64(b))
			v2 = xround(v2, binary.LittleEndian.Uint64(b[8:]))
			v3 = xround(v3, binary.LittleEndian.Uint64(b[16:]))
			v4 = xround(v4, binary.LittleEndian.Uint64(b[24:]))
			b = b[32:]
		}
		h = bits.RotateLeft64(v1, 1) + bits.RotateLeft64(v2, 7) + bits.RotateLeft64(v3, 12) + bits.RotateLeft64(v4, 18)
		h = xmerge(h, v1)
		h = xmerge(h, v2)
		h = xmerge(h, v3)
		h = xmerge(h, v4)
	} else {
		h = xp5
	}
	h += n
	for len(b) >= 8 {
		h ^= xround(0, binary.LittleEndian.Uint64(b))
		h = bits.RotateLeft64(h, 27)*xp1 + xp4
		b = b[8:]
	}
	if len(b) >= 4 {
		h ^= uint64(binary.LittleEndian.Uint32(b)) * xp1
		h = bits.RotateLeft64(h, 23)*xp2 + xp3
		b = b[4:]
	}
	for _, c := range b {
		h ^= uint64(c) * xp5
		h = bits.RotateLeft64(h, 11) * xp1
	}
	h ^= h >> 33
	h *= xp2
	h ^= h >> 29
	h *= xp3
	h ^= h >> 32
	return h
}
