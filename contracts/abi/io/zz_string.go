package io

import (
	"bytes"

	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// The two halves of the length word.
//
//verif:lemma
//verif:props C09
func lemma_TaggedUnits(units uint32, wide bool, word uint32) {
	vspec.Requires(units < 1<<31)
	w := TaggedCodeUnits{CodeUnits: units, UTF16: wide}.ToUInt32()
	if wide {
		vspec.Ensures("a tagged word is the count and the top bit", w == units+1<<31)
	} else {
		vspec.Ensures("an untagged word is the count", w == units)
	}
	u := UInt32ToTaggedCodeUnits(w)
	vspec.Ensures("unpacking undoes packing", u.CodeUnits == units && u.UTF16 == wide)
	v := UInt32ToTaggedCodeUnits(word)
	vspec.Ensures("the count is below the tag", v.CodeUnits < 1<<31)
	vspec.Ensures("packing undoes unpacking", v.ToUInt32() == word)
}

type zzEncoding struct{ e encoding.Encoding }

func gen_zzEncoding(g *vspec.Gen) zzEncoding {
	return zzEncoding{encoding.Encoding(g.Pick(string(encoding.UTF8), string(encoding.UTF16), string(encoding.Latin1Utf16), string(encoding.UTF16BE), string(encoding.UTF16LE), string(encoding.Latin1), "x"))}
}

func zzKnown(e encoding.Encoding) bool {
	return e == encoding.UTF8 || e == encoding.UTF16 || e == encoding.UTF16LE || e == encoding.UTF16BE || e == encoding.Latin1 || e == encoding.Latin1Utf16
}

// Which ranges a string is loaded from: whole, aligned and inside the memory,
// with the count taken in units of the encoding selected.
//
//verif:lemma
//verif:props C09 C05
func lemma_LoadStringFromRange(z zzEncoding, p zzPlace, word uint32) {
	cx := &types.CallContext{Options: &types.CanonicalOptions{Memory: bytes.NewBuffer(p.mem), StringEncoding: z.e}}
	_, err := LoadStringFromRange(cx, p.ptr, word)
	units := uint64(word & 0x7fffffff)
	wide := encoding.ZZWide(z.e) || z.e == encoding.Latin1Utf16 && word >= 1<<31
	if wide {
		units *= 2
	}
	if z.e != encoding.UTF8 {
		vspec.Ensures("misaligned", p.ptr%2 == 0 || err != nil)
	}
	vspec.Ensures("unknown encoding", zzKnown(z.e) || err != nil)
	vspec.Ensures("outside the memory", uint64(p.ptr)+units <= uint64(len(p.mem)) || err != nil)
}

// zzLatin1 tells whether every character of the string is below 256.
//
//verif:opaque
func zzLatin1(s string) bool {
	for _, r := range s {
		if r > 0xff {
			return false
		}
	}
	return true
}

// The scan over the characters is not verified (it asks a table of
// golang.org/x/text); bounded_String exercises it.
//
//verif:trusted isLatin1
func trusted_isLatin1(str string) bool {
	b := isLatin1(str)
	vspec.Ensures("characters below 256", b == zzLatin1(str))
	return b
}

type zzText struct{ s string }

func gen_zzText(g *vspec.Gen) zzText { return zzText{zzGenString(g)} }

// What is written and reported for a string, whatever memory the allocator
// leaves behind and wherever it puts the block.
//
//verif:lemma
//verif:props C09 C05
func lemma_StoreStringIntoRange(z zzEncoding, before []byte, p zzPlace, t zzText, deny bool, k zzSmall) {
	opts := &types.CanonicalOptions{Memory: bytes.NewBuffer(before), StringEncoding: z.e}
	cx := &types.CallContext{Options: opts}
	calls, oldPtr, oldSize, align, size := 0, uint32(0), uint32(0), uint32(0), uint32(0)
	opts.Realloc = func(op, os, a, n uint32) (uint32, error) {
		calls++
		oldPtr, oldSize, align, size = op, os, a, n
		opts.Memory = bytes.NewBuffer(p.mem)
		if deny {
			return 0, types.Trap()
		}
		return p.ptr, nil
	}
	var was uint8
	if uint64(k) < uint64(len(p.mem)) {
		was = p.mem[k]
	}
	got, word, err := StoreStringIntoRange(cx, t.s)

	used := z.e
	if z.e == encoding.Latin1Utf16 {
		used = encoding.Latin1
		if !zzLatin1(t.s) {
			used = encoding.UTF16LE
		}
	}
	n := encoding.ZZLen(used, t.s)
	vspec.Ensures("unknown encoding", zzKnown(z.e) || err != nil)
	if err != nil {
		if uint64(k) < uint64(len(p.mem)) {
			vspec.Ensures("nothing written", p.mem[k] == was)
		}
		return
	}
	vspec.Ensures("a denied allocation is reported", !deny)
	vspec.Ensures("one new block of the encoded size", calls == 1 && oldPtr == 0 && oldSize == 0 && uint64(size) == uint64(n))
	vspec.Ensures("the block is aligned", used == encoding.UTF8 || align == 2 && p.ptr%2 == 0)
	vspec.Ensures("the block is inside the memory", uint64(p.ptr)+uint64(n) <= uint64(len(p.mem)))
	vspec.Ensures("the block is the one allocated", got == p.ptr)
	units := uint32(n)
	if encoding.ZZWide(used) {
		units = uint32(n / 2)
	}
	if z.e == encoding.Latin1Utf16 && used == encoding.UTF16LE {
		vspec.Ensures("count of 16-bit units with the tag", word == units|1<<31)
	} else {
		vspec.Ensures("count of units without a tag", word == units)
	}
	if uint64(k) < uint64(len(p.mem)) {
		i := uint64(k) - uint64(p.ptr)
		if uint64(k) >= uint64(p.ptr) && i < uint64(n) {
			vspec.Ensures("the block holds the encoded string", p.mem[k] == encoding.ZZByte(used, t.s, int(i)))
		} else {
			vspec.Ensures("nothing else is written", p.mem[k] == was)
		}
	}
}
