package ref

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
)

// DecodeStream undoes all filters of a stream.
func DecodeStream(s *Stream) ([]byte, error) {
	var filters, parms Arr
	switch f := s.D["Filter"].(type) {
	case nil:
		return s.Raw, nil
	case Arr:
		filters = f
	default:
		filters = Arr{f}
	}
	switch p := s.D["DecodeParms"].(type) {
	case Arr:
		parms = p
	default:
		parms = Arr{p}
	}
	d := s.Raw
	for i, f := range filters {
		var err error
		switch f {
		case Name("FlateDecode"):
			var zr io.ReadCloser
			zr, err = zlib.NewReader(bytes.NewReader(d))
			if err == nil {
				d, err = io.ReadAll(zr)
			}
		case Name("ASCIIHexDecode"):
			d, err = DecodeHex(d)
		case Name("ASCII85Decode"):
			d, err = DecodeA85(d)
		case Name("RunLengthDecode"):
			d, err = DecodeRL(d)
		default:
			err = fmt.Errorf("filter %v", f)
		}
		if err != nil {
			return nil, err
		}
		if i < len(parms) {
			pd, _ := parms[i].(Dict)
			pred, _ := Int(pd["Predictor"])
			if pred >= 10 {
				cols, ok := Int(pd["Columns"])
				if !ok {
					cols = 1
				}
				if d, err = unpng(d, cols); err != nil {
					return nil, err
				}
			} else if pred > 1 {
				return nil, fmt.Errorf("predictor %d", pred)
			}
		}
	}
	return d, nil
}

// DecodeHex is strict ASCIIHexDecode: hex digits and white space up to '>'.
func DecodeHex(d []byte) ([]byte, error) {
	var out []byte
	half := -1
	for _, c := range d {
		if IsWS(c) {
			continue
		}
		if c == '>' {
			if half >= 0 {
				out = append(out, byte(half<<4))
			}
			return out, nil
		}
		v := hv(c)
		if v < 0 {
			return nil, fmt.Errorf("bad hex digit %q", c)
		}
		if half < 0 {
			half = v
		} else {
			out = append(out, byte(half<<4|v))
			half = -1
		}
	}
	return nil, fmt.Errorf("no end of data")
}

// DecodeA85 is strict ASCII85Decode.
func DecodeA85(d []byte) ([]byte, error) {
	var out []byte
	var g []uint64
	for i := 0; i < len(d); i++ {
		c := d[i]
		switch {
		case IsWS(c):
		case c == '~':
			if i+1 >= len(d) || d[i+1] != '>' {
				return nil, fmt.Errorf("bad end of data")
			}
			if len(g) == 1 {
				return nil, fmt.Errorf("single final character")
			}
			if n := len(g); n > 0 {
				for len(g) < 5 {
					g = append(g, 84)
				}
				v := a85v(g)
				if v > 0xFFFFFFFF {
					return nil, fmt.Errorf("group out of range")
				}
				out = append(out, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}[:n-1]...)
			}
			return out, nil
		case c == 'z' && len(g) == 0:
			out = append(out, 0, 0, 0, 0)
		case c >= '!' && c <= 'u':
			g = append(g, uint64(c-'!'))
			if len(g) == 5 {
				v := a85v(g)
				if v > 0xFFFFFFFF {
					return nil, fmt.Errorf("group out of range")
				}
				out = append(out, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
				g = g[:0]
			}
		default:
			return nil, fmt.Errorf("bad character %q", c)
		}
	}
	return nil, fmt.Errorf("no end of data")
}

func a85v(g []uint64) uint64 {
	var v uint64
	for _, x := range g {
		v = v*85 + x
	}
	return v
}

// DecodeRL is strict RunLengthDecode.
func DecodeRL(d []byte) ([]byte, error) {
	var out []byte
	for i := 0; i < len(d); {
		l := int(d[i])
		i++
		switch {
		case l == 128:
			return out, nil
		case l < 128:
			if i+l+1 > len(d) {
				return nil, fmt.Errorf("short literal")
			}
			out = append(out, d[i:i+l+1]...)
			i += l + 1
		default:
			if i >= len(d) {
				return nil, fmt.Errorf("short run")
			}
			out = append(out, bytes.Repeat(d[i:i+1], 257-l)...)
			i++
		}
	}
	return nil, fmt.Errorf("no end of data")
}
