package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	"github.com/sttp/goapi/vdrv/vnet"
)

// The publisher's side of the wire protocol.

const (
	cmdConnect       = 0x00
	cmdMetadata      = 0x01
	cmdSubscribe     = 0x02
	cmdUnsubscribe   = 0x03
	cmdRotateKeys    = 0x04
	cmdInterval      = 0x05
	cmdModes         = 0x06
	cmdConfirmNotify = 0x07
	cmdConfirmBlock  = 0x08
	cmdConfirmCache  = 0x0A

	rspOK      = 0x80
	rspFail    = 0x81
	rspData    = 0x82
	rspCache   = 0x83
	rspTimes   = 0x84
	rspKeys    = 0x85
	rspStart   = 0x86
	rspDone    = 0x87
	rspBlock   = 0x88
	rspNotify  = 0x89
	rspChanged = 0x8A
	rspNoOP    = 0xFF
)

func u16(v int) []byte     { b := make([]byte, 2); binary.BigEndian.PutUint16(b, uint16(v)); return b }
func u32(v uint32) []byte  { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }
func u64(v uint64) []byte  { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }
func f32(v float32) []byte { return u32(math.Float32bits(v)) }

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func gz(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

// body is a response without the outer length.
func body(code, cmd int, payload []byte) []byte {
	return cat([]byte{byte(code), byte(cmd)}, u32(uint32(len(payload))), payload)
}

// packet is a whole response message on the command channel.
func packet(code, cmd int, payload []byte) []byte {
	b := body(code, cmd, payload)
	return cat(u32(uint32(len(b))), b)
}

type rec struct {
	Index int32
	ID    [16]byte
	Src   string
	Num   uint64
}

func sicBody(subscriber [16]byte, recs []rec) []byte {
	b := cat(subscriber[:], u32(uint32(len(recs))))
	for _, r := range recs {
		b = cat(b, u32(uint32(r.Index)), r.ID[:], u32(uint32(len(r.Src))), []byte(r.Src), u64(r.Num))
	}
	return cat(u32(uint32(len(b)+4)), b)
}

func sic(version, slot int, compress bool, subscriber [16]byte, recs []rec) []byte {
	b := sicBody(subscriber, recs)
	if compress {
		b = gz(b)
	}
	if version > 1 {
		b = cat([]byte{byte(slot)}, b)
	}
	return b
}

func sigID(k int) (g [16]byte) {
	for i := range g {
		g[i] = byte(k*16 + i + 1)
	}
	g[15] = byte(k)
	g[14] = byte(k >> 8)
	return
}

func hexs(b []byte) string { return fmt.Sprintf("%x", b) }

// simple compact packet with full timestamps
func compactSimple(slot int, vals []float32, index int32) []byte {
	flags := byte(0x02)
	if slot > 0 {
		flags |= 0x10
	}
	b := cat([]byte{flags}, u32(uint32(len(vals))))
	for _, v := range vals {
		b = cat(b, []byte{0}, u32(uint32(index)), f32(v), u64(0x08d9000000000000))
	}
	return b
}

// readCmd reads one command frame.
func readCmd(c *net.TCPConn) (code int, payload []byte, err error) {
	var h [4]byte
	if _, err = io.ReadFull(c, h[:]); err != nil {
		return
	}
	n := binary.BigEndian.Uint32(h[:])
	if n == 0 || n > 1<<20 {
		return 0, nil, fmt.Errorf("bad frame length %d", n)
	}
	b := make([]byte, n)
	if _, err = io.ReadFull(c, b); err != nil {
		return
	}
	return int(b[0]), b[1:], nil
}

const metaXML = `<?xml version="1.0"?><DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:ext="urn:schemas-microsoft-com:xml-msdata"><xs:element name="DataSet"><xs:complexType><xs:choice minOccurs="0" maxOccurs="unbounded"><xs:element name="MeasurementDetail"><xs:complexType><xs:sequence><xs:element name="SignalID" ext:DataType="System.Guid" type="xs:string" /><xs:element name="ID" type="xs:string" /></xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema><MeasurementDetail><SignalID>00000000-0000-0000-0000-000000000001</SignalID><ID>PPA:1</ID></MeasurementDetail></DataSet>`
