package rplc

import "unsafe"

// Available: the C wrapper of the working tree is compiled in.
const Available = true

// Parse feeds one line to the C wrapper with the state of the last call, and
// returns the encoded message and the new state as the C side would see them.
func Parse(line string, state []byte) (msg []byte, st []byte) {
	mp, mn, sp, sn := RawPanelASCIIstringToInboundMessage(line, state)
	return bytesAt(mp, mn), bytesAt(sp, sn)
}

func bytesAt(p unsafe.Pointer, n int) []byte {
	if p == nil {
		return nil
	}
	return append([]byte{}, unsafe.Slice((*byte)(p), n)...)
}
