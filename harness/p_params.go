package main

// C12, C13, C14: sequence and picture parameter sets (H.264 7.3.2.1, 7.3.2.2).

import (
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"pgregory.net/rapid"
)

type scalingList struct {
	Present bool
	Default bool   // the first delta makes the next scale zero
	Vals    []byte // explicit values before the list runs on with the last one; not empty
	Size    int
}

func (l scalingList) write(w *bitWriter) {
	w.flag(l.Present)
	if !l.Present {
		return
	}
	delta := func(d int) int64 {
		d %= 256
		if d > 127 {
			d -= 256
		}
		if d < -128 {
			d += 256
		}
		return int64(d)
	}
	last := 8
	if l.Default {
		w.se(delta(0 - last))
		return
	}
	for _, v := range l.Vals {
		w.se(delta(int(v) - last))
		last = int(v)
	}
	if len(l.Vals) < l.Size {
		w.se(delta(0 - last))
	}
}

func genLists(n int) *rapid.Generator[[]scalingList] {
	return rapid.Custom(func(t *rapid.T) []scalingList {
		var ls []scalingList
		for i := 0; i < n; i++ {
			l := scalingList{Size: 16}
			if i >= 6 {
				l.Size = 64
			}
			switch rapid.IntRange(0, 3).Draw(t, "list") {
			case 0:
			case 1:
				l.Present, l.Default = true, true
			case 2:
				l.Present = true
				n := rapid.IntRange(1, l.Size-1).Draw(t, "values")
				l.Vals = rapid.SliceOfN(rapid.ByteRange(1, 255), n, n).Draw(t, "vals")
			default:
				l.Present = true
				l.Vals = rapid.SliceOfN(rapid.ByteRange(1, 255), l.Size, l.Size).Draw(t, "vals")
			}
			ls = append(ls, l)
		}
		return ls
	})
}

// compareLists checks presence, default flags and the values of explicit lists.
func compareLists(present uint32, def [12]bool, vals []int32, want []scalingList) error {
	off := 0
	for i := 0; i < 12; i++ {
		size := 16
		if i >= 6 {
			size = 64
		}
		var l scalingList
		if i < len(want) {
			l = want[i]
		}
		if p := present>>uint(i)&1 == 1; p != l.Present {
			return fmt.Errorf("scaling list %d present=%v, want %v", i, p, l.Present)
		}
		if def[i] != (l.Present && l.Default) {
			return fmt.Errorf("scaling list %d default=%v, want %v", i, def[i], l.Default)
		}
		if l.Present && !l.Default {
			for j := 0; j < size; j++ {
				v := l.Vals[len(l.Vals)-1]
				if j < len(l.Vals) {
					v = l.Vals[j]
				}
				if vals[off+j] != int32(v) {
					return fmt.Errorf("scaling list %d[%d] is %d, want %d", i, j, vals[off+j], v)
				}
			}
		}
		off += size
	}
	return nil
}

type spsCase struct {
	NRI                        byte
	Profile, Constraint, Level byte
	ID                         uint32
	Chroma                     uint32
	Separate                   bool
	Luma, ChromaDepth          uint32
	Bypass                     bool
	Matrix                     bool
	Lists                      []scalingList
	FrameNum                   uint32
	POC                        uint32
	POCLsb                     uint32
	DeltaAlways0               bool
	NonRef, TopBottom          int32
	Cycle                      []int32
	RefFrames                  uint32
	Gaps                       bool
	W, H                       uint32
	FrameMbsOnly               bool
	Mbaff                      bool
	Direct8x8                  bool
	Crop                       bool
	L, R, T, B                 uint32
	VUI                        bool
	Timing                     bool
	Units, Scale               uint32
}

func highProfile(p byte) bool {
	switch p {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138:
		return true
	}
	return false
}

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (c spsCase) cropUnits() (x, y uint32) {
	x, y = 1, 1
	if highProfile(c.Profile) && (c.Chroma == 0 || c.Separate) {
		// ChromaArrayType 0
	} else if c.Chroma == 1 {
		x, y = 2, 2
	} else if c.Chroma == 2 {
		x = 2
	}
	return x, y * (2 - b2u(c.FrameMbsOnly))
}

func (c spsCase) size() (w, h uint32) {
	x, y := c.cropUnits()
	return 16*(c.W+1) - x*(c.L+c.R), (2-b2u(c.FrameMbsOnly))*16*(c.H+1) - y*(c.T+c.B)
}

// write encodes the set; need is the number of bits up to vui_parameters_present_flag.
func (c spsCase) write() (raw []byte, need int) {
	var w bitWriter
	need = c.fill(&w)
	return w.bytes(), need
}

// spoilt writes the set with one code that does not fit into 32 bits.
func (c spsCase) spoilt(code, zeroes int) []byte {
	var w bitWriter
	c.fill(&w)
	w = bitWriter{spoil: 1 + code%w.codes, zeroes: zeroes}
	c.fill(&w)
	return w.bytes()
}

func (c spsCase) fill(w *bitWriter) (need int) {
	w.u(uint64(c.Profile), 8)
	w.u(uint64(c.Constraint), 8)
	w.u(uint64(c.Level), 8)
	w.ue(uint64(c.ID))
	if highProfile(c.Profile) {
		w.ue(uint64(c.Chroma))
		if c.Chroma == 3 {
			w.flag(c.Separate)
		}
		w.ue(uint64(c.Luma))
		w.ue(uint64(c.ChromaDepth))
		w.flag(c.Bypass)
		w.flag(c.Matrix)
		for _, l := range c.Lists {
			l.write(w)
		}
	}
	w.ue(uint64(c.FrameNum))
	w.ue(uint64(c.POC))
	if c.POC == 0 {
		w.ue(uint64(c.POCLsb))
	} else if c.POC == 1 {
		w.flag(c.DeltaAlways0)
		w.se(int64(c.NonRef))
		w.se(int64(c.TopBottom))
		w.ue(uint64(len(c.Cycle)))
		for _, v := range c.Cycle {
			w.se(int64(v))
		}
	}
	w.ue(uint64(c.RefFrames))
	w.flag(c.Gaps)
	w.ue(uint64(c.W))
	w.ue(uint64(c.H))
	w.flag(c.FrameMbsOnly)
	if !c.FrameMbsOnly {
		w.flag(c.Mbaff)
	}
	w.flag(c.Direct8x8)
	w.flag(c.Crop)
	if c.Crop {
		w.ue(uint64(c.L))
		w.ue(uint64(c.R))
		w.ue(uint64(c.T))
		w.ue(uint64(c.B))
	}
	w.flag(c.VUI)
	need = len(w.bits)
	if c.VUI {
		w.u(0, 4) // aspect ratio, overscan, video signal, chroma location
		w.flag(c.Timing)
		if c.Timing {
			w.u(uint64(c.Units), 32)
			w.u(uint64(c.Scale), 32)
			w.u(1, 1)
		}
		w.u(0, 4) // NAL HRD, VCL HRD, pic_struct, bitstream restriction
	}
	w.trailing()
	return need
}

var genOffset = rapid.OneOf(rapid.Int32Range(-(1<<31-1), 1<<31-1), rapid.Int32Range(-300, 300))

func genSPS(t *rapid.T) spsCase {
	u := func(max uint32, name string) uint32 { return rapid.Uint32Range(0, max).Draw(t, name) }
	flag := func(name string) bool { return rapid.Bool().Draw(t, name) }
	c := spsCase{
		NRI:        rapid.ByteRange(0, 3).Draw(t, "nri"),
		Profile:    rapid.SampledFrom([]byte{66, 77, 88, 100, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138}).Draw(t, "profile"),
		Constraint: rapid.ByteRange(0, 63).Draw(t, "constraints") << 2, Level: rapid.Byte().Draw(t, "level"),
		ID: u(31, "id"), Chroma: 1,
	}
	if highProfile(c.Profile) {
		c.Chroma = u(3, "chroma")
		c.Separate = c.Chroma == 3 && flag("separate")
		c.Luma, c.ChromaDepth, c.Bypass = u(6, "luma"), u(6, "chroma depth"), flag("bypass")
		if c.Matrix = rapid.IntRange(0, 2).Draw(t, "matrix") == 0; c.Matrix {
			n := 8
			if c.Chroma == 3 {
				n = 12
			}
			c.Lists = genLists(n).Draw(t, "lists")
		}
	}
	c.FrameNum = u(12, "frame num")
	c.POC = u(2, "poc")
	switch c.POC {
	case 0:
		c.POCLsb = u(12, "poc lsb")
	case 1:
		c.DeltaAlways0 = flag("delta")
		c.NonRef, c.TopBottom = genOffset.Draw(t, "non ref"), genOffset.Draw(t, "top bottom")
		n := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 4), rapid.IntRange(0, 4), rapid.IntRange(5, 255), rapid.SampledFrom([]int{127, 128, 254, 255})).Draw(t, "cycle length")
		c.Cycle = rapid.SliceOfN(genOffset, n, n).Draw(t, "cycle")
	}
	c.RefFrames, c.Gaps = u(16, "refs"), flag("gaps")
	dim := rapid.OneOf(rapid.Uint32Range(0, 20), rapid.Uint32Range(0, 1054), rapid.SampledFrom([]uint32{79, 119, 44, 67, 33, 239, 134}))
	c.W, c.H = dim.Draw(t, "w"), dim.Draw(t, "h")
	c.FrameMbsOnly = flag("frame mbs only")
	c.Direct8x8 = true
	if !c.FrameMbsOnly {
		c.Mbaff = flag("mbaff")
	} else {
		c.Direct8x8 = flag("direct8x8")
	}
	if c.Crop = flag("crop"); c.Crop {
		x, y := c.cropUnits()
		wmax := (16*(c.W+1) - 1) / x
		hmax := ((2-b2u(c.FrameMbsOnly))*16*(c.H+1) - 1) / y
		small := func(max uint32, name string) uint32 {
			return rapid.OneOf(rapid.Uint32Range(0, min(max, 8)), rapid.Uint32Range(0, max)).Draw(t, name)
		}
		c.L = small(wmax, "l")
		c.R = small(wmax-c.L, "r")
		c.T = small(hmax, "t")
		c.B = small(hmax-c.T, "b")
	}
	if c.VUI = flag("vui"); c.VUI {
		if c.Timing = flag("timing"); c.Timing {
			c.Units, c.Scale = rapid.SampledFrom([]uint32{1, 2, 1001, 256}).Draw(t, "units"), rapid.SampledFrom([]uint32{50, 60000, 1 << 16, 1 << 24}).Draw(t, "scale")
		}
	}
	return c
}

func compareSPS(s *h264.SPSInfo, c spsCase) error {
	if s == nil {
		return fmt.Errorf("nil sequence parameter set")
	}
	var err error
	eq := func(name string, got, want interface{}) {
		if got != want && err == nil {
			err = fmt.Errorf("%s is %v, want %v", name, got, want)
		}
	}
	eq("profile", s.ProfileIdc, c.Profile)
	eq("constraints", s.ConstraintSet, c.Constraint)
	eq("level", s.LevelIdc, c.Level)
	eq("id", s.SpsID, c.ID)
	eq("chroma format", s.ChromaFormatIdc, c.Chroma)
	eq("separate planes", s.SeparateColorPlane, c.Separate)
	eq("luma depth", s.BitDepthLuma, c.Luma)
	eq("chroma depth", s.BitDepthChroma, c.ChromaDepth)
	eq("transform bypass", s.ZeroTransformBypass, c.Bypass)
	eq("scaling matrix", s.ScalingMatrixPresent, c.Matrix)
	if err == nil {
		err = compareLists(s.ScalingListPresent, s.UseDefaultScalingMatrix, s.ScalingList[:], c.Lists)
	}
	eq("log2 max frame num", s.Log2MaxFrameNum, c.FrameNum)
	eq("poc type", s.PicOrderCntType, c.POC)
	eq("log2 max poc lsb", s.Log2MaxPicOrderCnt, c.POCLsb)
	eq("delta pic order always zero", s.DeltaPicOrderAlways0, c.DeltaAlways0)
	eq("offset for non ref pic", s.OffsetForNonRefPic, c.NonRef)
	eq("offset for top to bottom field", s.OffsetForTopToBottomField, c.TopBottom)
	eq("num ref frames in cycle", s.NumRefFramesInPicOrderCntCycle, uint32(len(c.Cycle)))
	eq("max num ref frames", s.MaxNumRefFrames, c.RefFrames)
	eq("gaps in frame num", s.GapsInFrameNumValueAllowed, c.Gaps)
	eq("width in mbs - 1", s.PicWidthInMbsMinus1, c.W)
	eq("height in map units - 1", s.PicHeightInMapUnitsMinus1, c.H)
	eq("frame mbs only", s.FrameMbsOnly, b2u(c.FrameMbsOnly))
	eq("mbaff", s.MbAdaptiveFrameField, c.Mbaff)
	eq("direct 8x8 inference", s.Direct8x8Inference, c.Direct8x8)
	eq("frame cropping", s.FrameCropping, c.Crop)
	eq("crop left", s.FrameCropLeftOffset, c.L)
	eq("crop right", s.FrameCropRightOffset, c.R)
	eq("crop top", s.FrameCropTopOffset, c.T)
	eq("crop bottom", s.FrameCropBottomOffset, c.B)
	eq("vui present", s.VuiParametersPresent, c.VUI)
	w, h := c.size()
	eq("width", s.Width, w)
	eq("height", s.Height, h)
	return err
}

type ppsCase struct {
	NRI             byte
	ID, SpsID       uint32
	Entropy, Bottom bool
	Groups          uint32 // minus 1
	MapType         uint32
	Runs            []uint32
	TL, BR          []uint32
	ChangeDir       bool
	ChangeRate      uint32
	GroupIDs        []byte
	L0, L1          uint32
	Weighted        bool
	Bipred          byte
	QP, QS, CQ      int32
	Deblock         bool
	ConstrIntra     bool
	Redundant       bool
	Ext             bool
	T8x8            bool
	Matrix          bool
	Lists           []scalingList
	Second          int32
}

func (c ppsCase) write() (raw []byte, need int) {
	var w bitWriter
	need = c.fill(&w)
	return w.bytes(), need
}

// spoilt writes the set with one code that does not fit into 32 bits.
func (c ppsCase) spoilt(code, zeroes int) []byte {
	var w bitWriter
	c.fill(&w)
	w = bitWriter{spoil: 1 + code%w.codes, zeroes: zeroes}
	c.fill(&w)
	return w.bytes()
}

func (c ppsCase) fill(w *bitWriter) (need int) {
	w.ue(uint64(c.ID))
	w.ue(uint64(c.SpsID))
	w.flag(c.Entropy)
	w.flag(c.Bottom)
	w.ue(uint64(c.Groups))
	if c.Groups > 0 {
		w.ue(uint64(c.MapType))
		switch c.MapType {
		case 0:
			for _, v := range c.Runs {
				w.ue(uint64(v))
			}
		case 2:
			for i := range c.TL {
				w.ue(uint64(c.TL[i]))
				w.ue(uint64(c.BR[i]))
			}
		case 3, 4, 5:
			w.flag(c.ChangeDir)
			w.ue(uint64(c.ChangeRate))
		case 6:
			w.ue(uint64(len(c.GroupIDs) - 1))
			bits := 1
			if c.Groups > 3 {
				bits = 3
			} else if c.Groups > 1 {
				bits = 2
			}
			for _, v := range c.GroupIDs {
				w.u(uint64(v), bits)
			}
		}
	}
	w.ue(uint64(c.L0))
	w.ue(uint64(c.L1))
	w.flag(c.Weighted)
	w.u(uint64(c.Bipred), 2)
	w.se(int64(c.QP))
	w.se(int64(c.QS))
	w.se(int64(c.CQ))
	w.flag(c.Deblock)
	w.flag(c.ConstrIntra)
	w.flag(c.Redundant)
	need = len(w.bits)
	if c.Ext {
		w.flag(c.T8x8)
		w.flag(c.Matrix)
		for _, l := range c.Lists {
			l.write(w)
		}
		w.se(int64(c.Second))
	}
	w.trailing()
	return need
}

// genPPS draws a set that refers to a sequence parameter set with the given chroma format (-1: unknown).
func genPPS(t *rapid.T, spsID uint32, chroma int) ppsCase {
	u := func(max uint32, name string) uint32 {
		return rapid.OneOf(rapid.Uint32Range(0, min(max, 5)), rapid.Uint32Range(0, max)).Draw(t, name)
	}
	flag := func(name string) bool { return rapid.Bool().Draw(t, name) }
	c := ppsCase{NRI: rapid.ByteRange(0, 3).Draw(t, "nri"), ID: u(255, "id"), SpsID: spsID, Entropy: flag("entropy"), Bottom: flag("bottom")}
	if flag("groups") {
		c.Groups = rapid.Uint32Range(1, 7).Draw(t, "groups")
		c.MapType = rapid.Uint32Range(0, 6).Draw(t, "map type")
		switch c.MapType {
		case 0:
			for i := uint32(0); i <= c.Groups; i++ {
				c.Runs = append(c.Runs, u(139263, "run"))
			}
		case 2:
			for i := uint32(0); i < c.Groups; i++ {
				c.TL = append(c.TL, u(139263, "tl"))
				c.BR = append(c.BR, u(139263, "br"))
			}
		case 3, 4, 5:
			c.ChangeDir, c.ChangeRate = flag("dir"), u(139263, "rate")
		case 6:
			n := rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 1000)).Draw(t, "map units")
			if n <= 40 {
				c.GroupIDs = rapid.SliceOfN(rapid.ByteRange(0, byte(c.Groups)), n, n).Draw(t, "ids")
			} else {
				k := rapid.IntRange(1, 7).Draw(t, "stride")
				for i := 0; i < n; i++ {
					c.GroupIDs = append(c.GroupIDs, byte(i*k/3)%byte(c.Groups+1))
				}
			}
		}
	}
	c.L0, c.L1, c.Weighted, c.Bipred = u(31, "l0"), u(31, "l1"), flag("weighted"), rapid.ByteRange(0, 2).Draw(t, "bipred")
	c.QP, c.QS, c.CQ = rapid.Int32Range(-62, 25).Draw(t, "qp"), rapid.Int32Range(-26, 25).Draw(t, "qs"), rapid.Int32Range(-12, 12).Draw(t, "cq")
	c.Deblock, c.ConstrIntra, c.Redundant = flag("deblock"), flag("intra"), flag("redundant")
	if c.Ext = flag("extension"); c.Ext {
		c.T8x8 = flag("8x8")
		c.Matrix = flag("matrix")
		if chroma < 0 {
			c.T8x8 = c.T8x8 && !c.Matrix // the number of lists would depend on the missing set
		}
		if c.Matrix {
			n := 6
			if c.T8x8 {
				n = 8
				if chroma == 3 {
					n = 12
				}
			}
			c.Lists = genLists(n).Draw(t, "lists")
		}
		c.Second = rapid.Int32Range(-12, 12).Draw(t, "second")
	}
	return c
}

func comparePPS(p *h264.PPSInfo, c ppsCase) error {
	if p == nil {
		return fmt.Errorf("nil picture parameter set")
	}
	var err error
	eq := func(name string, got, want interface{}) {
		if got != want && err == nil {
			err = fmt.Errorf("%s is %v, want %v", name, got, want)
		}
	}
	eq("id", p.PpsID, c.ID)
	eq("sps id", p.SpsID, c.SpsID)
	eq("entropy coding mode", p.EntropyCodingMode, c.Entropy)
	eq("bottom field pic order", p.BottomFieldPicOorderInFramePresent, c.Bottom)
	eq("slice groups - 1", p.NumSliceGroupsMinus1, c.Groups)
	eq("map type", p.SliceGroupMapType, c.MapType)
	for i, v := range c.Runs {
		eq(fmt.Sprintf("run length %d", i), p.RunLengthMinus1[i], v)
	}
	for i := range c.TL {
		eq(fmt.Sprintf("top left %d", i), p.TopLeft[i], c.TL[i])
		eq(fmt.Sprintf("bottom right %d", i), p.BottomRight[i], c.BR[i])
	}
	eq("change direction", p.SliceGroupChangeDirection, c.ChangeDir)
	eq("change rate", p.SliceGroupChangeRateMinus1, c.ChangeRate)
	if len(c.GroupIDs) > 0 {
		eq("map units - 1", p.PicSizeInMapUnitsMinus1, uint32(len(c.GroupIDs)-1))
	}
	eq("slice group ids", string(p.SliceGroupID), string(c.GroupIDs))
	eq("l0", p.NumRefIdxL0DefaultActiveMinus1, c.L0)
	eq("l1", p.NumRefIdxL1DefaultActiveMinus1, c.L1)
	eq("weighted", p.WeightedPred, c.Weighted)
	eq("bipred", p.WeightedBipredIdc, c.Bipred)
	eq("init qp", p.PicInitQpMinus26, c.QP)
	eq("init qs", p.PicInitQsMinus26, c.QS)
	eq("chroma qp", p.ChromaQpIndexOffset, c.CQ)
	eq("deblocking", p.DeblockingFilterControlPresent, c.Deblock)
	eq("constrained intra", p.ConstrainedIntraPred, c.ConstrIntra)
	eq("redundant", p.RedundantPicCntPresent, c.Redundant)
	eq("8x8", p.Transform8x8Mode, c.T8x8)
	eq("scaling matrix", p.ScalingMatrixPresent, c.Matrix)
	if err == nil {
		err = compareLists(p.ScalingListPresent, p.UseDefaultScalingMatrix, p.ScalingList[:], c.Lists)
	}
	if c.Ext { // without the extension it is inferred, by whom is left open
		eq("second chroma qp", p.SecondChromaQpIndexOffset, c.Second)
	}
	return err
}

type spsUse struct {
	S     spsCase
	Sprop bool
}

type ppsUse struct {
	S     *spsCase
	P     ppsCase
	Sprop bool
}

func sprop(nri, typ byte, raw []byte) []byte {
	return append([]byte{nri<<5 | typ}, escape(raw)...)
}

type storeOp struct {
	Kind  string // sps, pps, other
	S     *spsCase
	P     *ppsCase
	Sprop bool
	Keep  int // bytes of the raw set kept; -1: all
	Code  int // the code that is too long, if it begins with any
	Zeros int // zeroes
	Type  byte
	Junk  []byte
}

func (op storeOp) good() bool { return op.Keep < 0 && op.Zeros == 0 }

type storeCase struct {
	Ops    []storeOp
	Sparse bool // look up all ids, but not after every step
}

func runStore(c storeCase) error {
	ps := h264.NewParameterSets()
	sm := map[uint32]spsCase{}
	pm := map[uint32]ppsCase{}
	heldS := map[*h264.SPSInfo]spsCase{} // looked up before
	heldP := map[*h264.PPSInfo]ppsCase{}
	probe := map[uint32]bool{0: true, 1: true, 31: true, 32: true, 255: true}
	for id := uint32(0); c.Sparse && id < 256; id++ {
		probe[id] = true
	}
	for i, op := range c.Ops {
		var err error
		var what string
		parse := func(typ, nri byte, raw []byte, direct func([]byte) error) error {
			if op.Keep >= 0 {
				raw = raw[:op.Keep]
			}
			if op.Sprop {
				return ps.ParseSprop(sprop(nri, typ, raw))
			}
			return direct(append([]byte{}, raw...))
		}
		switch op.Kind {
		case "sps":
			raw, _ := op.S.write()
			if op.Zeros > 0 {
				raw = op.S.spoilt(op.Code, op.Zeros)
			}
			probe[op.S.ID] = true
			err = parse(7, op.S.NRI, raw, ps.ParseSPS)
			what = fmt.Sprintf("sequence parameter set %d", op.S.ID)
			if op.good() {
				sm[op.S.ID] = *op.S
			}
		case "pps":
			raw, _ := op.P.write()
			if op.Zeros > 0 {
				raw = op.P.spoilt(op.Code, op.Zeros)
			}
			probe[op.P.ID] = true
			err = parse(8, op.P.NRI, raw, ps.ParsePPS)
			what = fmt.Sprintf("picture parameter set %d", op.P.ID)
			if op.good() {
				pm[op.P.ID] = *op.P
			}
		default:
			ps.ParseSprop(append([]byte{op.Type}, op.Junk...))
		}
		if what != "" && op.good() != (err == nil) {
			return fmt.Errorf("op %d: %s, truncated=%v, a code with %d zeroes: error %v", i, what, op.Keep >= 0, op.Zeros, err)
		}
		if c.Sparse && i%97 != 5 && i != len(c.Ops)-1 {
			continue
		}
		disturbSets()
		for id := range probe {
			s, ok := ps.GetSPS(id)
			w, want := sm[id]
			if ok != want {
				return fmt.Errorf("after op %d: sequence parameter set %d present=%v, want %v", i, id, ok, want)
			}
			if want {
				if err := compareSPS(s, w); err != nil {
					return fmt.Errorf("after op %d: sequence parameter set %d: %v", i, id, err)
				}
				if _, ok := heldS[s]; !ok {
					heldS[s] = w
				}
			}
			p, ok := ps.GetPPS(id)
			wp, want := pm[id]
			if ok != want {
				return fmt.Errorf("after op %d: picture parameter set %d present=%v, want %v", i, id, ok, want)
			}
			if want {
				if err := comparePPS(p, wp); err != nil {
					return fmt.Errorf("after op %d: picture parameter set %d: %v", i, id, err)
				}
				if _, ok := heldP[p]; !ok {
					heldP[p] = wp
				}
			}
		}
	}
	for s, w := range heldS {
		if err := compareSPS(s, w); err != nil {
			return fmt.Errorf("sequence parameter set %d, looked up before, at the end: %v", w.ID, err)
		}
	}
	for p, w := range heldP {
		if err := comparePPS(p, w); err != nil {
			return fmt.Errorf("picture parameter set %d, looked up before, at the end: %v", w.ID, err)
		}
	}
	return nil
}

func runPPS(c ppsUse) error {
	ps := h264.NewParameterSets()
	raw, _ := c.S.write()
	if err := ps.ParseSPS(raw); err != nil {
		return fmt.Errorf("the sequence parameter set was rejected: %v", err)
	}
	disturbSets()
	raw, _ = c.P.write()
	var err error
	if c.Sprop {
		err = ps.ParseSprop(sprop(c.P.NRI, 8, raw))
	} else {
		err = ps.ParsePPS(raw)
	}
	if err != nil {
		return fmt.Errorf("legal set rejected: %v", err)
	}
	disturbSets()
	p, ok := ps.GetPPS(c.P.ID)
	if !ok {
		return fmt.Errorf("set %d not found", c.P.ID)
	}
	return comparePPS(p, c.P)
}

func init() {
	register(Spec[spsUse]{
		Prop: "C12", Name: "sps", Quick: 24000, Pure: true,
		Rule:       "legal sequence parameter sets of 13 profiles written by a reference bit writer (all chroma formats, scaling lists, POC types with offsets over the whole range, fields and frames, cropping up to a 1-sample picture, VUI), raw or as sprop: every field and the size; non-trivial: cropped, interlaced or with scaling lists",
		Gen:        func(t *rapid.T) spsUse { return spsUse{S: genSPS(t), Sprop: rapid.Bool().Draw(t, "sprop")} },
		Nontrivial: func(c spsUse) bool { return c.S.Crop || !c.S.FrameMbsOnly || c.S.Matrix },
		Labels: func(c spsUse) []string {
			l := []string{fmt.Sprintf("poc %d", c.S.POC), fmt.Sprintf("chroma %d", c.S.Chroma)}
			raw, _ := c.S.write()
			if c.Sprop && len(encap(raw)) != len(raw) {
				l = append(l, "escaped sprop")
			}
			if c.S.Matrix {
				l = append(l, "scaling lists")
			}
			if !c.S.FrameMbsOnly {
				l = append(l, "interlaced")
			}
			return l
		},
		Run: func(c spsUse) error {
			raw, _ := c.S.write()
			ps := h264.NewParameterSets()
			var err error
			if c.Sprop {
				err = ps.ParseSprop(sprop(c.S.NRI, 7, raw))
			} else {
				err = ps.ParseSPS(raw)
			}
			if err != nil {
				return fmt.Errorf("legal set rejected: %v", err)
			}
			disturbSets()
			s, ok := ps.GetSPS(c.S.ID)
			if !ok {
				return fmt.Errorf("set %d not found", c.S.ID)
			}
			return compareSPS(s, c.S)
		},
	})
	register(Spec[ppsUse]{
		Prop: "C13", Name: "pps", Quick: 24000, Pure: true,
		Rule: "legal picture parameter sets (all slice group map types, with and without the extension, 6 to 12 scaling lists after the chroma format of the sequence parameter set they refer to), raw or as sprop: every field; non-trivial: slice groups or the extension",
		Gen: func(t *rapid.T) ppsUse {
			s := genSPS(t)
			chroma := int(s.Chroma)
			return ppsUse{&s, genPPS(t, s.ID, chroma), rapid.Bool().Draw(t, "sprop")}
		},
		Nontrivial: func(c ppsUse) bool { return c.P.Ext || c.P.Groups > 0 },
		Labels: func(c ppsUse) []string {
			l := []string{"no groups"}
			if c.P.Groups > 0 {
				l = []string{fmt.Sprintf("map type %d", c.P.MapType)}
			}
			if c.P.Ext {
				l = append(l, "extension", fmt.Sprintf("%d lists", len(c.P.Lists)))
			}
			return l
		},
		Run: runPPS,
	})
	register(Spec[storeCase]{
		Prop: "C14", Name: "history", Quick: 8000, Pure: true,
		Rule: "histories of 1-15 parses into one store over few ids: legal sets, sets truncated before their last mandatory bit or with one Golomb code of 33 or more leading zeroes, and NAL units of other types; after each step every id is looked up and compared with a map model; non-trivial: an id is parsed twice or a set is truncated or damaged",
		Gen: func(t *rapid.T) storeCase {
			var c storeCase
			chroma := map[uint32]int{}
			n := rapid.IntRange(1, 15).Draw(t, "ops")
			ids := rapid.SampledFrom([]uint32{0, 1, 2, 31})
			for i := 0; i < n; i++ {
				op := storeOp{Kind: rapid.SampledFrom([]string{"sps", "sps", "pps", "pps", "other"}).Draw(t, "kind"), Sprop: rapid.Bool().Draw(t, "sprop"), Keep: -1}
				cut := rapid.IntRange(0, 3).Draw(t, "cut") == 0
				switch op.Kind {
				case "sps":
					s := genSPS(t)
					s.ID = ids.Draw(t, "id")
					op.S = &s
					if cut {
						_, need := s.write()
						op.Keep = rapid.IntRange(0, (need-1)/8).Draw(t, "keep")
					} else if rapid.IntRange(0, 4).Draw(t, "damage") == 0 {
						op.Zeros, op.Code = rapid.IntRange(33, 70).Draw(t, "zeroes"), rapid.IntRange(0, 400).Draw(t, "code")
					} else {
						chroma[s.ID] = int(s.Chroma)
					}
				case "pps":
					sid := ids.Draw(t, "sps id")
					ch, ok := chroma[sid]
					if !ok {
						ch = -1
					}
					p := genPPS(t, sid, ch)
					p.ID = ids.Draw(t, "id")
					op.P = &p
					if cut {
						_, need := p.write()
						op.Keep = rapid.IntRange(0, (need-1)/8).Draw(t, "keep")
					} else if rapid.IntRange(0, 4).Draw(t, "damage") == 0 {
						op.Zeros, op.Code = rapid.IntRange(33, 70).Draw(t, "zeroes"), rapid.IntRange(0, 400).Draw(t, "code")
					}
				default:
					typ := rapid.ByteRange(0, 31).Draw(t, "type")
					if typ == 7 || typ == 8 {
						typ += 2
					}
					op.Type = rapid.ByteRange(0, 3).Draw(t, "nri")<<5 | typ
					op.Junk = append([]byte{}, anyBytes(0, 20).Draw(t, "junk")...)
					if rapid.Bool().Draw(t, "looks like a set") {
						s := genSPS(t)
						op.Junk, _ = s.write()
					}
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Nontrivial: func(c storeCase) bool {
			seen := map[string]bool{}
			for _, op := range c.Ops {
				if !op.good() {
					return true
				}
				k := ""
				if op.S != nil {
					k = fmt.Sprint("s", op.S.ID)
				} else if op.P != nil {
					k = fmt.Sprint("p", op.P.ID)
				}
				if k != "" && seen[k] {
					return true
				}
				seen[k] = true
			}
			return false
		},
		Labels: func(c storeCase) (l []string) {
			for _, op := range c.Ops {
				k := op.Kind
				if op.Keep >= 0 {
					k += " truncated"
				}
				if op.Zeros > 0 {
					k += " damaged"
				}
				l = append(l, k)
			}
			return
		},
		Run: runStore,
	})
}
