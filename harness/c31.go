package main

import (
	"fmt"

	"github.com/samuel/go-dsp/dsp/ax25"
)

func init() { checks["C31"] = checkC31 }

var axPIDNames = map[byte]string{0x01: "ISO 8208/CCITT X.25 PLP", 0x06: "Compressed TCP/IP. RFC 1144", 0x07: "Uncompressed TCP/IP", 0x08: "Segmentation fragment",
	0xc3: "TEXNET database protocol", 0xc4: "Link Quality Protocol", 0xca: "Appletalk", 0xcb: "Appletalk ARP", 0xcc: "ARPA Internet Protocol",
	0xcd: "ARPA Address Resolution", 0xce: "FlexNet", 0xcf: "NET/ROM", 0xf0: "No Layer 3 Protocol Implemented"}

var axUNames = map[byte]string{0x6f: "SABME", 0x2f: "SABM", 0x43: "DISC", 0x0f: "DM", 0x63: "UA", 0x87: "FRMR", 0x03: "UI", 0xaf: "XID", 0xe3: "TEST"}

// C31: the names printed for what the decoder delivers.
func checkC31(c *Ctx) {
	c.Rule = "one evaluation = one name of a decoded field (or of a raw code) compared with the protocol's; distinct = distinct (kind, code)."
	hex := func(v int) string { return fmt.Sprintf("%02x", v) }
	eq := func(what string, v int, got, want string) {
		c.Seen(hashS(what, v), true)
		if got != want {
			c.Fail("name:"+what, "%s %#02x is called %q, want %q", what, v, got, want)
		}
	}
	c.Do("codes", func() {
		for rep := 0; rep < 2; rep++ { // printing changes nothing
			for v := 0; v < 256; v++ {
				w := axPIDNames[byte(v)]
				if w == "" {
					w = hex(v)
				}
				eq("PID", v, ax25.PID(v).String(), w)
				eq("PID verb", v, fmt.Sprint(ax25.PID(v)), w)
				if w = axUNames[byte(v)]; w == "" {
					w = hex(v)
				}
				eq("UnnumberedType", v, ax25.UnnumberedType(v).String(), w)
				eq("UnnumberedType verb", v, fmt.Sprintf("%v", ax25.UnnumberedType(v)), w)
				if n, ok := ax25.UnnumberedTypeName[ax25.UnnumberedType(v)]; ok || axUNames[byte(v)] != "" {
					eq("UnnumberedTypeName", v, n, axUNames[byte(v)])
				}
				if w = map[int]string{1: "RR", 5: "RNR", 9: "REJ", 13: "SREJ"}[v]; w == "" {
					w = hex(v)
				}
				eq("SupervisoryType", v, ax25.SupervisoryType(v).String(), w)
				if w = map[int]string{0: "I", 1: "S", 2: "U"}[v]; w == "" {
					w = hex(v)
				}
				eq("FrameType", v, ax25.FrameType(v).String(), w)
			}
		}
		c.Sample("PID 0xf0 is %q, 0x33 is %q", ax25.PID(0xf0), ax25.PID(0x33))
	})
	c.Do("decoded frames", func() {
		d := ax25.NewDecoder()
		for rep := 0; rep < c.N(4, 60); rep++ {
			for ctl := 0; ctl < 256; ctl++ {
				f := c.R.frame(false, c.R.Intn(4), c.R.Intn(20))
				f.control = byte(ctl)
				pids := []byte{0x01, 0x06, 0x07, 0x08, 0xc3, 0xc4, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xf0, byte(c.R.Intn(256))}
				f.pid = pids[c.R.Intn(len(pids))]
				s := &bitBuf{}
				s.flag()
				s.octets(withCRC(f.octets()))
				s.flag()
				var got *ax25.Frame
				feedBits(d, s.b, func(i int, g *ax25.Frame) { got = g })
				if got == nil {
					continue // C18's business
				}
				c.Count("frames_decoded", 1)
				eq("source", 0, got.Source.String(), fmt.Sprintf("%s-%d", f.src.call, f.src.ssid))
				eq("destination", 0, got.Destination.String(), fmt.Sprintf("%s-%d", f.dst.call, f.dst.ssid))
				for i, r := range f.reps {
					if i < len(got.Repeaters) {
						eq("repeater", i, got.Repeaters[i].String(), fmt.Sprintf("%s-%d", r.call, r.ssid))
					}
				}
				switch {
				case ctl&1 == 0:
					eq("type of control octet", ctl, got.Type.String(), "I")
				case ctl&3 == 1:
					eq("type of control octet", ctl, got.Type.String(), "S")
					eq("kind of control octet", ctl, got.SupervisoryType.String(), []string{"RR", "RNR", "REJ", "SREJ"}[ctl>>2&3])
				default:
					eq("type of control octet", ctl, got.Type.String(), "U")
					w := axUNames[byte(ctl)&^0x10]
					if w == "" {
						w = hex(ctl &^ 0x10)
					}
					eq("kind of control octet", ctl, got.UnnumberedType.String(), w)
				}
				if axHasPID(f.control) {
					w := axPIDNames[f.pid]
					if w == "" {
						w = hex(int(f.pid))
					}
					eq("protocol of frame with", int(f.pid), got.PID.String(), w)
				}
			}
		}
	})
}
