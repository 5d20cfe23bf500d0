package main

// An independent reader of the published file format (column_format_spec.md
// and the layout the released code writes). It shares nothing with the code
// under test; its strictness defines what a well-formed file is.

import (
	"encoding/binary"
	"fmt"
)

const fileMagic = 0x5642455F434F4C00

type parsedBlock struct {
	Off             int64
	Size            int64 // as indexed, padding included
	End             int64 // end of the value section
	MinID, MaxID    uint64
	MinV, MaxV, Sum int64
	Count           uint32
	Pairs           Block
	HMinID, HMaxID  uint64
	HMinV, HMaxV    int64
	HSum            int64
	HCount, HEnc    uint32
	HComp           uint32
	IDOff, IDLen    uint32
	ValOff, ValLen  uint32
	Err             error
}

type parsedFile struct {
	Version, Column      uint32
	BlockCount           uint64
	Target, Comp, Enc    uint32
	Created              uint64
	BitmapOff, BitmapLen uint64
	BitmapBytes          []byte
	BitmapErr            error
	Footer               int64
	Blocks               []parsedBlock
}

var le = binary.LittleEndian

// stat decodes a stored statistic: sign and magnitude, the sign in the top
// bit; magnitude zero with the sign set stands for the one value that has no
// magnitude, the smallest integer.
func stat(u uint64) int64 {
	if u>>63 == 0 {
		return int64(u)
	}
	if u == 1<<63 {
		return -1 << 63
	}
	return -int64(u &^ (1 << 63))
}

func parseFile(b []byte) (*parsedFile, error) {
	if len(b) < 64 {
		return nil, fmt.Errorf("no room for a header")
	}
	f := &parsedFile{}
	if le.Uint64(b) != fileMagic {
		return nil, fmt.Errorf("bad header magic")
	}
	f.Version = le.Uint32(b[8:])
	f.Column = le.Uint32(b[12:])
	f.BlockCount = le.Uint64(b[16:])
	f.Target = le.Uint32(b[24:])
	f.Comp = le.Uint32(b[28:])
	f.Enc = le.Uint32(b[32:])
	f.Created = le.Uint64(b[36:])
	f.BitmapOff = le.Uint64(b[44:])
	f.BitmapLen = le.Uint64(b[52:])
	if f.Version != 1 {
		return nil, fmt.Errorf("version %d", f.Version)
	}
	if len(b) < 64+24+4 {
		return nil, fmt.Errorf("no room for a footer")
	}
	t := b[len(b)-24:]
	if le.Uint64(t[16:]) != fileMagic {
		return nil, fmt.Errorf("bad trailer magic")
	}
	fs := le.Uint64(t)
	if fs < 4 || fs > uint64(len(b)-24-64) {
		return nil, fmt.Errorf("footer size %d", fs)
	}
	f.Footer = int64(len(b)) - 24 - int64(fs)
	ft := b[f.Footer : len(b)-24]
	n := uint64(le.Uint32(ft))
	if fs != 4+56*n {
		return nil, fmt.Errorf("footer size %d with %d entries", fs, n)
	}
	if f.BlockCount != n {
		return nil, fmt.Errorf("header says %d blocks, footer %d", f.BlockCount, n)
	}
	if f.BitmapOff != 0 && f.BitmapLen != 0 { // otherwise the file has no id set
		switch {
		case f.BitmapLen < 4 || f.BitmapOff > uint64(len(b)) || f.BitmapLen > uint64(len(b))-f.BitmapOff:
			f.BitmapErr = fmt.Errorf("bitmap outside the file")
		case uint64(le.Uint32(b[f.BitmapOff:]))+4 != f.BitmapLen:
			f.BitmapErr = fmt.Errorf("bitmap size field does not match")
		default:
			f.BitmapBytes = b[f.BitmapOff+4 : f.BitmapOff+f.BitmapLen]
		}
	}
	for i := uint64(0); i < n; i++ {
		e := ft[4+56*i:]
		pb := parsedBlock{
			Off: int64(le.Uint64(e)), Size: int64(le.Uint32(e[8:])),
			MinID: le.Uint64(e[12:]), MaxID: le.Uint64(e[20:]),
			MinV: stat(le.Uint64(e[28:])), MaxV: stat(le.Uint64(e[36:])), Sum: stat(le.Uint64(e[44:])),
			Count: le.Uint32(e[52:]),
		}
		pb.Err = pb.parse(b, f.Enc)
		f.Blocks = append(f.Blocks, pb)
	}
	return f, nil
}

func encFlags(enc uint32) (idVar, idDelta, valVar, valDelta, ok bool) {
	switch enc {
	case 0:
		return false, false, false, false, true
	case 1:
		return false, true, false, false, true
	case 2:
		return false, false, false, true, true
	case 3:
		return false, true, false, true, true
	case 4:
		return true, false, true, false, true
	case 5:
		return true, true, false, false, true
	case 6:
		return false, false, true, true, true
	case 7:
		return true, true, true, true, true
	}
	return
}

func (pb *parsedBlock) parse(b []byte, enc uint32) error {
	if pb.Off < 0 || pb.Off > int64(len(b)) || pb.Size > int64(len(b))-pb.Off || pb.Size < 80 {
		return fmt.Errorf("block [%d,+%d) outside the file of %d bytes", pb.Off, pb.Size, len(b))
	}
	h := b[pb.Off : pb.Off+pb.Size]
	pb.HMinID, pb.HMaxID = le.Uint64(h), le.Uint64(h[8:])
	pb.HMinV, pb.HMaxV, pb.HSum = stat(le.Uint64(h[16:])), stat(le.Uint64(h[24:])), stat(le.Uint64(h[32:]))
	pb.HCount, pb.HEnc, pb.HComp = le.Uint32(h[40:]), le.Uint32(h[44:]), le.Uint32(h[48:])
	pb.IDOff, pb.IDLen = le.Uint32(h[64:]), le.Uint32(h[68:])
	pb.ValOff, pb.ValLen = le.Uint32(h[72:]), le.Uint32(h[76:])
	d := h[80:]
	sec := func(off, n uint32) ([]byte, error) {
		if uint64(off)+uint64(n) > uint64(len(d)) {
			return nil, fmt.Errorf("section [%d,+%d) outside the block", off, n)
		}
		return d[off : off+n], nil
	}
	ids, err := sec(pb.IDOff, pb.IDLen)
	if err != nil {
		return err
	}
	vals, err := sec(pb.ValOff, pb.ValLen)
	if err != nil {
		return err
	}
	pb.End = pb.Off + 80 + int64(max(uint64(pb.IDOff)+uint64(pb.IDLen), uint64(pb.ValOff)+uint64(pb.ValLen)))
	idVar, idDelta, valVar, valDelta, ok := encFlags(enc)
	if !ok {
		return fmt.Errorf("unknown encoding %d", enc)
	}
	var left error
	is, err := numbers(ids, pb.Count, idVar)
	if err == errTrailing {
		left = err
	} else if err != nil {
		return fmt.Errorf("ids: %v", err)
	}
	vs, err := numbers(vals, pb.Count, valVar)
	if err == errTrailing {
		left = err
	} else if err != nil {
		return fmt.Errorf("values: %v", err)
	}
	if valVar {
		for i, u := range vs {
			vs[i] = u>>1 ^ -(u & 1)
		}
	}
	if idDelta {
		for i := 1; i < len(is); i++ {
			is[i] += is[i-1]
		}
	}
	if valDelta {
		for i := 1; i < len(vs); i++ {
			vs[i] += vs[i-1]
		}
	}
	pb.Pairs = make(Block, pb.Count)
	for i := range pb.Pairs {
		pb.Pairs[i] = Pair{is[i], int64(vs[i])}
	}
	return left
}

// numbers reads exactly n unsigned numbers filling the whole section.
func numbers(b []byte, n uint32, varint bool) ([]uint64, error) {
	if uint64(n) > uint64(len(b)) {
		return nil, fmt.Errorf("%d numbers in %d bytes", n, len(b))
	}
	out := make([]uint64, 0, n)
	for i := uint32(0); i < n; i++ {
		if varint {
			var u uint64
			var s uint
			k := 0
			for {
				if k >= len(b) {
					return nil, fmt.Errorf("number %d of %d is cut off", i, n)
				}
				c := b[k]
				k++
				if k == 10 && c > 1 {
					return nil, fmt.Errorf("number %d overflows", i)
				}
				u |= uint64(c&0x7f) << s
				s += 7
				if c < 0x80 {
					break
				}
				if k == 10 {
					return nil, fmt.Errorf("number %d overflows", i)
				}
			}
			out = append(out, u)
			b = b[k:]
			continue
		}
		if len(b) < 8 {
			return nil, fmt.Errorf("number %d of %d is cut off", i, n)
		}
		out = append(out, le.Uint64(b))
		b = b[8:]
	}
	if len(b) != 0 {
		return out, errTrailing
	}
	return out, nil
}

var errTrailing = fmt.Errorf("bytes left over in the section")
