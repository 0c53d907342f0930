package main

// C08, C09: emulation prevention and Annex B.  C10, C11: the bit reader.

import (
	"bytes"
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"pgregory.net/rapid"
)

type bytesCase struct{ B []byte }

// unescape removes every 03 that follows two zeros.
func unescape(b []byte) []byte {
	var out []byte
	for i, c := range b {
		if c == 3 && i >= 2 && b[i-1] == 0 && b[i-2] == 0 {
			continue
		}
		out = append(out, c)
	}
	return out
}

// escape is the encapsulation: an escape after two zeros before a byte of at most 3 or the end (H.264 7.4.1.1).
func escape(raw []byte) (out []byte) {
	zeros := 0
	for _, b := range raw {
		if zeros == 2 && b <= 3 {
			out = append(out, 3)
			zeros = 0
		}
		out = append(out, b)
		if b == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	if zeros == 2 {
		out = append(out, 3)
	}
	return out
}

func runEncap(c bytesCase) error {
	in := append([]byte{}, c.B...)
	enc := h264.RBSPToEncapsulated(in)
	disturbH264()
	if !bytes.Equal(in, c.B) {
		return fmt.Errorf("encapsulating changed its input")
	}
	for i := 0; i+2 < len(enc); i++ {
		if enc[i] == 0 && enc[i+1] == 0 && enc[i+2] <= 2 {
			return fmt.Errorf("%s encapsulates to %s, which contains %x", truncBytes(c.B), truncBytes(enc), enc[i:i+3])
		}
	}
	if want := escape(c.B); !bytes.Equal(enc, want) {
		return fmt.Errorf("%s encapsulates to %s: %s", truncBytes(c.B), truncBytes(enc), diffBytes(enc, want))
	}
	if back := h264.EBSPToRaw(enc); !bytes.Equal(back, c.B) {
		return fmt.Errorf("%s does not come back from %s: %s", truncBytes(c.B), truncBytes(enc), diffBytes(back, c.B))
	}
	return nil
}

func runRaw(c bytesCase) error {
	in := append([]byte{}, c.B...)
	raw := h264.EBSPToRaw(in)
	if !bytes.Equal(in, c.B) {
		return fmt.Errorf("converting to raw changed its input")
	}
	disturbH264()
	if want := unescape(c.B); !bytes.Equal(raw, want) {
		return fmt.Errorf("%s converts to %s, want %s", truncBytes(c.B), truncBytes(raw), truncBytes(want))
	}
	return nil
}

func truncBytes(b []byte) string { return truncate(fmt.Sprintf("%x", b), 200) }

func enumSmall(alphabet []byte, quick, deep int) func(bool, func(bytesCase) bool) {
	return func(thorough bool, yield func(bytesCase) bool) {
		max := quick
		if thorough {
			max = deep
		}
		var rec func(prefix []byte) bool
		rec = func(prefix []byte) bool {
			if !yield(bytesCase{append([]byte{}, prefix...)}) {
				return false
			}
			if len(prefix) == max {
				return true
			}
			for _, b := range alphabet {
				if !rec(append(prefix, b)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}
}

func zeroRich(max int) func(t *rapid.T) bytesCase {
	return func(t *rapid.T) bytesCase {
		if rapid.Bool().Draw(t, "dense") {
			n := lengths(max).Draw(t, "n")
			return bytesCase{rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 3, 3, 4, 255}), n, n).Draw(t, "b")}
		}
		n := lengths(max).Draw(t, "n")
		return bytesCase{append([]byte{}, anyBytes(n, n).Draw(t, "b")...)}
	}
}

type annexB struct {
	Units []nal
	Zeros []int // zeros before the 01 that precedes each unit; 0 for the first means no start code
	Extra []int // further start codes with nothing after them: where (index of the unit they precede, or the number of units)
}

func runAnnexB(c annexB) error {
	var b []byte
	extra := func(i int) {
		for k, at := range c.Extra {
			if at == i {
				b = append(append(b, make([]byte, 2+k%2)...), 1)
			}
		}
	}
	for i, u := range c.Units {
		if c.Zeros[i] > 0 {
			extra(i)
			b = append(b, make([]byte, c.Zeros[i])...)
			b = append(b, 1)
		}
		b = append(b, u.wire()...)
	}
	extra(len(c.Units))
	orig := append([]byte{}, b...)
	got := h264.SplitAnnexB(b)
	disturbH264()
	if !bytes.Equal(orig, b) {
		return fmt.Errorf("splitting changed its input")
	}
	for i, u := range c.Units {
		if i >= len(got) {
			break
		}
		want := append([]byte{u.Hdr}, u.Raw...)
		if !bytes.Equal(got[i], want) {
			return fmt.Errorf("unit %d of %d: %s", i, len(c.Units), diffBytes(got[i], want))
		}
	}
	if len(got) != len(c.Units) {
		return fmt.Errorf("%d units, want %d", len(got), len(c.Units))
	}
	return nil
}

// bitWriter builds bit strings.
type bitWriter struct {
	bits   []byte
	codes  int // Golomb codes written
	spoil  int // the one of these, from 1, that is too long
	zeroes int // what it begins with
}

func (w *bitWriter) u(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		w.bits = append(w.bits, byte(v>>uint(i))&1)
	}
}

func (w *bitWriter) flag(b bool) {
	if b {
		w.u(1, 1)
	} else {
		w.u(0, 1)
	}
}

func (w *bitWriter) ue(v uint64) {
	if w.codes++; w.codes == w.spoil {
		w.u(0, w.zeroes)
		w.u(1, 1)
		w.u(0, w.zeroes)
		return
	}
	n := 0
	for (v+1)>>uint(n+1) != 0 {
		n++
	}
	w.u(0, n)
	w.u(v+1, n+1)
}

func (w *bitWriter) se(v int64) {
	if v > 0 {
		w.ue(uint64(2*v - 1))
	} else {
		w.ue(uint64(-2 * v))
	}
}

func (w *bitWriter) trailing() {
	w.u(1, 1)
	for len(w.bits)%8 != 0 {
		w.u(0, 1)
	}
}

// bytes packs the bits, padding the last byte with zeros.
func (w *bitWriter) bytes() []byte {
	out := make([]byte, (len(w.bits)+7)/8)
	for i, b := range w.bits {
		out[i/8] |= b << uint(7-i%8)
	}
	return out
}

type bitOp struct {
	Op string // bits, skip, flag, byte, trailing, param
	N  uint
}

type bitCase struct {
	B   []byte
	Ops []bitOp
}

func runBits(c bitCase) error {
	r := h264.NewBitReader(append([]byte{}, c.B...))
	pos, total := 0, 8*len(c.B)
	bit := func(i int) uint32 { return uint32(c.B[i/8]>>uint(7-i%8)) & 1 }
	value := func(n int) (v uint32) {
		for i := 0; i < n; i++ {
			v = v<<1 | bit(pos+i)
		}
		return
	}
	if got := r.Available(); int(got) != total {
		return fmt.Errorf("%d bits available in %d bytes", got, len(c.B))
	}
	for i, op := range c.Ops {
		if i%8 == 1 {
			disturbBits()
		}
		n := int(op.N)
		var got, want uint32
		var err error
		switch op.Op {
		case "bits":
			got, err = r.ReadBits(op.N)
		case "skip":
			err = r.SkipBits(op.N)
		case "flag":
			n = 1
			var f bool
			if f, err = r.ReadFlag(); f {
				got = 1
			}
		case "byte":
			var b byte
			b, err = r.ReadByteBits(op.N)
			got = uint32(b)
		case "trailing":
			err = r.SkipTrailingBits()
			end := (pos + 8) / 8 * 8
			good := pos < total && bit(pos) == 1
			for j := pos + 1; good && j < end; j++ {
				good = bit(j) == 0
			}
			if good != (err == nil) {
				return fmt.Errorf("op %d at bit %d: trailing bits good=%v, error=%v", i, pos, good, err)
			}
			if err != nil {
				return nil // where the reader stands now is not specified
			}
			pos = end
			if int(r.Available()) != total-pos {
				return fmt.Errorf("op %d trailing: %d bits available, want %d", i, r.Available(), total-pos)
			}
			continue
		case "param":
			got, err = r.ReadPayloadParam()
			sum, p, done := uint32(0), pos, false
			for p+8 <= total {
				save := pos
				pos = p
				v := value(8)
				pos = save
				p += 8
				sum += v
				if v != 255 {
					done = true
					break
				}
			}
			if done != (err == nil) {
				return fmt.Errorf("op %d at bit %d: payload parameter complete=%v, error=%v", i, pos, done, err)
			}
			if err != nil {
				return nil
			}
			pos = p
			if got != sum || int(r.Available()) != total-pos {
				return fmt.Errorf("op %d: payload parameter %d with %d bits left, want %d with %d", i, got, r.Available(), sum, total-pos)
			}
			continue
		}
		ok := n <= 32 && n <= total-pos
		if ok != (err == nil) {
			return fmt.Errorf("op %d (%s %d) with %d bits left: error=%v", i, op.Op, n, total-pos, err)
		}
		if ok {
			if op.Op != "skip" {
				want = value(n)
			}
			pos += n
			if got != want {
				return fmt.Errorf("op %d (%s %d) at bit %d: %#x, want %#x", i, op.Op, n, pos-n, got, want)
			}
		}
		if int(r.Available()) != total-pos {
			return fmt.Errorf("op %d (%s %d): %d bits available, want %d", i, op.Op, n, r.Available(), total-pos)
		}
	}
	return nil
}

type golombVal struct {
	Signed bool
	Skip   bool
	V      int64
	Pre    int // plain bits read before the code
	PreV   uint32
}

type golombCase struct{ Vals []golombVal }

func runGolomb(c golombCase) error {
	var w bitWriter
	for _, v := range c.Vals {
		w.u(uint64(v.PreV), v.Pre)
		if v.Signed {
			w.se(v.V)
		} else {
			w.ue(uint64(v.V))
		}
	}
	buf := w.bytes()
	r := h264.NewBitReader(buf)
	pos := 0
	for i, v := range c.Vals {
		if i%8 == 1 {
			disturbBits()
		}
		if v.Pre > 0 {
			if _, err := r.ReadBits(uint(v.Pre)); err != nil {
				return fmt.Errorf("value %d: reading %d plain bits: %v", i, v.Pre, err)
			}
			pos += v.Pre
		}
		var one bitWriter
		if v.Signed {
			one.se(v.V)
		} else {
			one.ue(uint64(v.V))
		}
		pos += len(one.bits)
		switch {
		case v.Skip:
			if err := r.SkipGolomb(); err != nil {
				return fmt.Errorf("value %d (%d): skipping: %v", i, v.V, err)
			}
		case v.Signed:
			got, err := r.ReadSignedGolomb()
			if err != nil || int64(got) != v.V {
				return fmt.Errorf("value %d: se(%d) decodes to %d, %v", i, v.V, got, err)
			}
		default:
			got, err := r.ReadUnsignedGolomb()
			if err != nil || int64(got) != v.V {
				return fmt.Errorf("value %d: ue(%d) decodes to %d, %v", i, v.V, got, err)
			}
		}
		if left := len(buf)*8 - pos; int(r.Available()) != left {
			return fmt.Errorf("value %d (%d, signed=%v skip=%v): %d bits left, want %d", i, v.V, v.Signed, v.Skip, r.Available(), left)
		}
	}
	return nil
}

type badGolomb struct {
	Zeros  int    // leading zeros of the code
	Suffix uint64 // its low bits
	Keep   int    // bits of the code in the buffer, counted from its start; -1: all, then filler
	Align  int    // plain bits before the code; with Keep >= 0 it is adjusted so that the buffer ends with the kept bits
	Kind   int    // 0 unsigned, 1 signed, 2 skip
}

func runBadGolomb(c badGolomb) error {
	var code bitWriter
	code.u(0, c.Zeros)
	code.u(1, 1)
	if c.Zeros <= 63 {
		code.u(c.Suffix&(1<<uint(c.Zeros)-1), c.Zeros)
	} else {
		code.u(0, c.Zeros-63)
		code.u(c.Suffix>>1, 63)
	}
	var w bitWriter
	mustFail := true
	pre := c.Align
	if c.Keep >= 0 {
		pre = (8 - c.Keep%8) % 8
		w.u(0x55, pre)
		w.bits = append(w.bits, code.bits[:c.Keep]...)
	} else {
		w.u(0x55, pre)
		w.bits = append(w.bits, code.bits...)
		w.u(0xff, 8)
		w.u(0xff, 8)
		// The value is 2^Zeros - 1 + Suffix.
		exact := c.Zeros == 32 && c.Suffix&(1<<32-1) == 0
		if exact && c.Kind == 0 {
			mustFail = false // 2^32-1 fits, but only just: decoding it exactly and refusing it are both right
		}
	}
	r := h264.NewBitReader(w.bytes())
	if pre > 0 {
		if _, err := r.ReadBits(uint(pre)); err != nil {
			return err
		}
	}
	var err error
	var got int64
	switch c.Kind {
	case 0:
		var v uint32
		v, err = r.ReadUnsignedGolomb()
		got = int64(v)
	case 1:
		var v int32
		v, err = r.ReadSignedGolomb()
		got = int64(v)
	default:
		err = r.SkipGolomb()
		if c.Keep < 0 {
			return nil // skipping a value that does not fit is not specified
		}
	}
	if err == nil && (mustFail || got != 1<<32-1) {
		return fmt.Errorf("a code with %d leading zeros, of which the buffer holds %d of %d bits (-1: all), decodes to %d", c.Zeros, c.Keep, len(code.bits), got)
	}
	return nil
}

func init() {
	zeroPair := func(c bytesCase) bool { return bytes.Contains(c.B, []byte{0, 0}) }
	register(Spec[bytesCase]{
		Prop: "C08", Name: "exhaustive", Pure: true,
		Rule: "every string over {00,01,02,03,04} of length 0-7 (thorough: 0-9): encapsulation against a reference, forbidden patterns, and back; non-trivial: contains 00 00",
		Enum: enumSmall([]byte{0, 1, 2, 3, 4}, 7, 9), Nontrivial: zeroPair,
		Run: func(c bytesCase) error {
			if err := runEncap(c); err != nil {
				return err
			}
			return runRaw(c)
		},
	})
	register(Spec[bytesCase]{
		Prop: "C08", Name: "encapsulate", Quick: 40000, Pure: true,
		Rule: "random strings of 0-4096 bytes, dense in zeros: encapsulation against a reference, forbidden patterns, and back; non-trivial: contains 00 00",
		Gen:  zeroRich(4096), Nontrivial: zeroPair, Run: runEncap,
	})
	register(Spec[bytesCase]{
		Prop: "C08", Name: "to-raw", Quick: 40000, Pure: true,
		Rule: "random strings of 0-4096 bytes, also ones no encoder makes: exactly the 03 after each 00 00 is removed; non-trivial: contains 00 00 03",
		Gen:  zeroRich(4096), Nontrivial: func(c bytesCase) bool { return bytes.Contains(c.B, []byte{0, 0, 3}) }, Run: runRaw,
	})
	register(Spec[annexB]{
		Prop: "C09", Name: "split", Quick: 40000, Pure: true,
		Rule: "1-6 NAL units of 1-1400 bytes, encapsulated by the reference and joined with start codes of 2-7 zeros and a 01, with or without one before the first, now and then several in a row or one at the end: exactly these units come out; non-trivial: at least two units or escapes",
		Gen: func(t *rapid.T) annexB {
			var c annexB
			c.Units = rapid.SliceOfN(genNAL(1400), 1, 6).Draw(t, "units")
			for i := range c.Units {
				z := rapid.SampledFrom([]int{2, 3, 2, 3, 4, 5, 6, 7}).Draw(t, "zeros")
				if i == 0 && rapid.IntRange(0, 2).Draw(t, "first") == 0 {
					z = 0
				}
				c.Zeros = append(c.Zeros, z)
			}
			if rapid.IntRange(0, 3).Draw(t, "doubled") == 0 {
				c.Extra = rapid.SliceOfN(rapid.IntRange(0, len(c.Units)), 1, 3).Draw(t, "start codes with nothing after them")
			}
			return c
		},
		Nontrivial: func(c annexB) bool {
			return len(c.Units) > 1 || len(c.Units[0].wire()) != len(c.Units[0].Raw)+1
		},
		Labels: func(c annexB) (l []string) {
			for _, z := range c.Zeros {
				l = append(l, fmt.Sprintf("%d zeros", z))
			}
			if len(c.Extra) > 0 {
				l = append(l, "start codes in a row")
			}
			return
		},
		Run: runAnnexB,
	})
	register(Spec[bitCase]{
		Prop: "C10", Name: "operations", Quick: 40000, Pure: true,
		Rule: "histories of 1-40 reads and skips of 0-40 bits, flags, bytes, trailing-bits checks and SEI parameters on buffers of 0-40 bytes, against a bit-string model; non-trivial: the history crosses a byte boundary at an odd alignment",
		Gen: func(t *rapid.T) bitCase {
			c := bitCase{B: append([]byte{}, anyBytes(0, 40).Draw(t, "buf")...)}
			if rapid.IntRange(0, 3).Draw(t, "ff") == 0 && len(c.B) > 0 {
				for i := rapid.IntRange(0, len(c.B)-1).Draw(t, "from"); i < len(c.B) && c.B[i]%5 != 0; i++ {
					c.B[i] = 255
				}
			}
			n := rapid.IntRange(1, 40).Draw(t, "ops")
			for i := 0; i < n; i++ {
				op := bitOp{Op: rapid.SampledFrom([]string{"bits", "bits", "bits", "bits", "skip", "skip", "flag", "byte", "trailing", "param"}).Draw(t, "op")}
				switch op.Op {
				case "bits", "skip":
					op.N = uint(rapid.OneOf(rapid.IntRange(0, 32), rapid.IntRange(0, 9), rapid.SampledFrom([]int{31, 32, 33, 40, 64})).Draw(t, "n"))
				case "byte":
					op.N = uint(rapid.IntRange(0, 8).Draw(t, "n"))
				case "trailing", "param":
					if rapid.IntRange(0, 2).Draw(t, "keep") > 0 {
						op = bitOp{Op: "flag"}
					}
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Nontrivial: func(c bitCase) bool {
			p := uint(0)
			for _, o := range c.Ops {
				if p%8 != 0 && p%8+o.N > 8 && p+o.N <= uint(8*len(c.B)) {
					return true
				}
				p += o.N
			}
			return false
		},
		Labels: func(c bitCase) (l []string) {
			for _, o := range c.Ops {
				l = append(l, o.Op)
			}
			return
		},
		Run: runBits,
	})
	register(Spec[bitCase]{
		Prop: "C10", Name: "pairs", Pure: true,
		Rule: "every pair of a first read of 0-32 and a second read or skip of 0-33 bits, on buffers of 0-9 bytes",
		Enum: func(_ bool, yield func(bitCase) bool) {
			b := []byte{0xa5, 0x3c, 0xff, 0x00, 0x81, 0x7e, 0xd2, 0x96, 0x01}
			for n := 0; n <= len(b); n++ {
				for i := uint(0); i <= 32; i++ {
					for j := uint(0); j <= 33; j++ {
						if !yield(bitCase{b[:n], []bitOp{{"bits", i}, {"bits", j}, {"flag", 0}}}) || !yield(bitCase{b[:n], []bitOp{{"skip", i}, {"skip", j}, {"bits", 7}}}) {
							return
						}
					}
				}
			}
		},
		Run: runBits,
	})
	genU := rapid.OneOf(rapid.Int64Range(0, 1<<32-2), rapid.Int64Range(0, 300), rapid.Custom(func(t *rapid.T) int64 {
		return int64(1)<<uint(rapid.IntRange(0, 31).Draw(t, "e")) + rapid.Int64Range(-2, 1).Draw(t, "d") - 1
	}).Filter(func(v int64) bool { return v >= 0 }), rapid.SampledFrom([]int64{1<<32 - 2, 1<<32 - 3, 1<<31 - 1, 1<<31 - 2, 1 << 31}))
	genS := rapid.OneOf(rapid.Int64Range(-(1<<31-1), 1<<31-1), rapid.Int64Range(-300, 300), rapid.SampledFrom([]int64{1<<31 - 1, -(1<<31 - 1), 1 << 30, -1 << 30, 1<<30 - 1}))
	register(Spec[golombCase]{
		Prop: "C11", Name: "sequences", Quick: 40000, Pure: true,
		Rule: "sequences of 1-20 ue(v) and se(v) codes over the whole 32-bit range, read or skipped, with 0-31 plain bits between them: values and position after each; non-trivial: some value of at least 2^16",
		Gen: func(t *rapid.T) golombCase {
			n := rapid.IntRange(1, 20).Draw(t, "n")
			var c golombCase
			for i := 0; i < n; i++ {
				v := golombVal{Signed: rapid.Bool().Draw(t, "signed"), Skip: rapid.IntRange(0, 3).Draw(t, "skip") == 0}
				if v.Signed {
					v.V = genS.Draw(t, "v")
				} else {
					v.V = genU.Draw(t, "v")
				}
				v.Pre = rapid.IntRange(0, 31).Draw(t, "pre")
				v.PreV = rapid.Uint32().Draw(t, "prev")
				if rapid.Bool().Draw(t, "none") {
					v.Pre = 0
				}
				c.Vals = append(c.Vals, v)
			}
			return c
		},
		Nontrivial: func(c golombCase) bool {
			for _, v := range c.Vals {
				if v.V >= 1<<16 || v.V <= -1<<16 {
					return true
				}
			}
			return false
		},
		Run: runGolomb,
	})
	register(Spec[golombCase]{
		Prop: "C11", Name: "small-values", Pure: true,
		Rule: "every ue(0..4000) and se(-2000..2000) at each of the eight alignments, read and skipped",
		Enum: func(_ bool, yield func(golombCase) bool) {
			for v := int64(0); v <= 4000; v++ {
				for pre := 0; pre < 8; pre++ {
					if !yield(golombCase{[]golombVal{{V: v, Pre: pre, PreV: 0x5a}, {V: v - 2000, Signed: true, Skip: v%2 == 0}, {V: v, Skip: true}, {V: v - 2000, Signed: true}}}) {
						return
					}
				}
			}
		},
		Run: runGolomb,
	})
	register(Spec[badGolomb]{
		Prop: "C11", Name: "bad-codes", Quick: 40000, Pure: true,
		Rule: "codes cut short at every length by the end of the buffer, and complete codes of 32-200 leading zeros, whose value does not fit: must be errors",
		Gen: func(t *rapid.T) badGolomb {
			c := badGolomb{Suffix: rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 3)).Draw(t, "suffix"), Align: rapid.IntRange(0, 7).Draw(t, "align"), Keep: -1, Kind: rapid.IntRange(0, 2).Draw(t, "kind")}
			if rapid.Bool().Draw(t, "cut") {
				c.Zeros = rapid.IntRange(0, 40).Draw(t, "zeros")
				c.Keep = rapid.IntRange(0, 2*c.Zeros).Draw(t, "keep")
			} else {
				c.Zeros = rapid.OneOf(rapid.IntRange(32, 34), rapid.IntRange(32, 70), rapid.IntRange(32, 200)).Draw(t, "zeros")
			}
			return c
		},
		Run: runBadGolomb,
	})
}
