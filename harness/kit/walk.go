package kit

import "encoding/binary"

// GiantLength tells whether decoding b as the kind would meet a tagged-data length prefix above 16 MiB, which makes the
// serializer allocate that much before it rejects the input. It follows the layout just far enough to find that prefix.
func GiantLength(kind string, b []byte) (giant bool) {
	defer func() {
		if recover() != nil { // ran off the end: the decoder does too
			giant = false
		}
	}()
	switch kind {
	case "tagged-data":
		return taggedGiant(b)
	case "tx":
		return txGiant(b)
	case "signedtx":
		return txGiant(b[1:])
	case "block":
		b = b[1+8+8+36+4+32:]
		if b[0] != 0 {
			return false
		}
		b = b[1:]
		for i := 0; i < 3; i++ {
			b = b[1+36*int(b[0]):]
		}
		b = b[4:]
		switch b[0] {
		case 0:
			return taggedGiant(b)
		case 1:
			return txGiant(b[1:])
		}
	}
	return false
}

func taggedGiant(b []byte) bool {
	return b[0] == 0 && binary.LittleEndian.Uint32(b[2+int(b[1]):]) > 1<<24
}

func txGiant(b []byte) bool {
	b = b[12:]
	n := binary.LittleEndian.Uint16(b)
	b = b[2:]
	for ; n > 0; n-- {
		switch b[0] {
		case 0:
			b = b[37:]
		case 1:
			b = b[33:]
		default:
			b = b[3:]
		}
	}
	n = binary.LittleEndian.Uint16(b)
	b = b[2+39*int(n):]
	n = binary.LittleEndian.Uint16(b)
	b = b[2+40*int(n):]
	b = b[1+int(b[0]):]
	if binary.LittleEndian.Uint32(b) == 0 {
		return false
	}
	return taggedGiant(b[4:])
}
