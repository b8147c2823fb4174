from plants1 import RBR, COMMON, JSON
PLANTS = []


def plant(id, prop, edits, main, needs, what, imports=(), **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, what=what, imports=list(imports), **kw))


CELL = '''
func cell(typ byte, meta uint16, unsigned bool, b ...byte) string {
	d, n, err := replication.CellBytes(append(append([]byte{}, b...), make([]byte, 8)...), 0, typ, meta, unsigned)
	must(err)
	want("length", n, len(b))
	return string(d)
}
'''


def cell(id, prop, edits, body, needs, what, imports=(), **kw):
    plant(id, prop, edits, "func main() {\n%s\n}\n%s" % (body, CELL), needs, what, imports, **kw)



# ---------------------------------------------------------------- C09
plant("c09-varchar-255", "C09",
      [(RBR, "\t\tif metadata > 255 {\n\t\t\tl := int(uint64(data[pos]) |\n\t\t\t\tuint64(data[pos+1])<<8)\n\t\t\treturn l + 2, nil\n\t\t}\n", "\t\tif metadata >= 255 {\n\t\t\tl := int(uint64(data[pos]) |\n\t\t\t\tuint64(data[pos+1])<<8)\n\t\t\treturn l + 2, nil\n\t\t}\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{15}, []byte{255, 0})
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0, 0}, []byte{0, 1, 'x'})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("rows", len(ts[0].Events[0].RowValues), 2)
}''',
      "a VARCHAR of exactly 255 bytes",
      "the length rule and the value decoder disagree about the length prefix")
plant("c09-extra-data", "C09",
      [(RBR, "\t\textraDataLength := binary.LittleEndian.Uint16(data[pos : pos+2])\n\t\tpos += int(extraDataLength)\n", "\t\textraDataLength := data[pos]\n\t\tpos += int(extraDataLength)\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", tiny, nil)
	l.add(30, cat(le(9, 6), le(1, 2), le(2+300, 2), make([]byte, 300), []byte{1, 1, 0, 5})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("row", show(ts[0].Events[0].RowValues[0]), "c=5")
}''',
      "a v2 rows event with 254 and more bytes of extra data",
      "the columns are read from inside the extra data")
plant("c09-wide-bitmaps", "C09",
      [("replication/binlog_event.go", "\tbyteIndex := index / 8\n\tbitMask := byte(1 << (uint(index) & 0x7))\n\treturn b.data[byteIndex]&bitMask > 0\n", "\tbyteIndex := byte(index) / 8\n\tbitMask := byte(1 << (uint(index) & 0x7))\n\treturn b.data[byteIndex]&bitMask > 0\n")],
      '''
func main() {
	n := 257
	l := newBinlog("b.1", 4).begin()
	types := make([]byte, n)
	for i := range types {
		types[i] = 1
	}
	count := []byte{0xfc, 1, 1}
	l.add(19, cat(le(9, 6), le(1, 2), []byte("\\x02db\\x00\\x01t\\x00"), count, types, []byte{0}, make([]byte, 33)))
	present := make([]byte, 33)
	for i := range present {
		present[i] = 0xff
	}
	null := make([]byte, 33)
	null[0] = 1 // the first one
	l.add(30, cat(le(9, 6), le(1, 2), le(2, 2), count, present, null, make([]byte, 256))).xid()
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "c")
	}
	ts, err := deliveries(l, tables{"db.t": cols(names...)}, "b.1", 4)
	must(err)
	cs := ts[0].Events[0].RowValues[0].Columns
	if cs[0].Data != nil || cs[256].Data == nil {
		fail("NULLs are wrong")
	}
}''',
      "a table of more than 256 columns",
      "bits above 255 wrap around")

# ---------------------------------------------------------------- C10
cell("c10-int24-minimum", "C10",
     [(RBR, "\t\tif !isUnSignedInt && data[pos+2]&128 > 0 {\n", "\t\tif !isUnSignedInt && data[pos+2] > 128 {\n")],
     '\twant("value", cell(9, 0, false, 1, 0, 0x80), "-8388607")',
     "a MEDIUMINT between -8388608 and -8323073",
     "the lowest 65536 negative MEDIUMINTs are printed as positive", imports=[])
cell("c10-set-63", "C10",
     [(RBR, "\t\t\treturn strconv.AppendUint(nil, uint64(val), 10), l, nil\n\t\t}\n\t\t// This is a real string", "\t\t\treturn strconv.AppendInt(nil, int64(val), 10), l, nil\n\t\t}\n\t\t// This is a real string")],
     '\twant("value", cell(254, 248<<8+8, false, 0, 0, 0, 0, 0, 0, 0, 0x80), "9223372036854775808")',
     "a SET of 64 members with the last one chosen",
     "the bitmask is printed as a negative number")
cell("c10-bit-width", "C10",
     [(RBR, "\t\tnbits := ((metadata >> 8) * 8) + (metadata & 0xFF)\n\t\tl := (int(nbits) + 7) / 8\n", "\t\tnbits := ((metadata >> 8) * 8) + (metadata & 0xFF)\n\t\tl := (int(nbits) + 7) / 8\n\t\tif nbits > 56 {\n\t\t\tl = 8\n\t\t\treturn bytes.TrimLeft(data[pos:pos+l-1], \"\\x00\")[:0:0], l, nil\n\t\t}\n")] and
     [(RBR, "\t\tl := (int(nbits) + 7) / 8\n\t\treturn data[pos : pos+l], l, nil\n", "\t\tl := (int(nbits) + 7) / 8\n\t\tif l == 8 && data[pos] == 0 {\n\t\t\treturn data[pos+1 : pos+l], l, nil\n\t\t}\n\t\treturn data[pos : pos+l], l, nil\n")] and
     [(RBR, "\t\treturn data[pos : pos+l], l, nil\n\tcase TypeTimestamp2:\n", "\t\tv := data[pos : pos+l]\n\t\tfor len(v) > 7 && v[0] == 0 {\n\t\t\tv = v[1:]\n\t\t}\n\t\treturn v, l, nil\n\tcase TypeTimestamp2:\n")],
     '\twant("value", cell(16, 0x0800, false, 0, 1, 2, 3, 4, 5, 6, 7), string([]byte{0, 1, 2, 3, 4, 5, 6, 7}))',
     "a BIT(57..64) whose first byte is zero",
     "the leading zero byte is dropped")
cell("c10-unsigned-long", "C10",
     [(RBR, "\t\treturn strconv.AppendInt(nil, int64(int32(val)), 10), 4, nil\n", "\t\treturn strconv.AppendInt(nil, int64(int32(val<<1)>>1), 10), 4, nil\n")],
     '\twant("value", cell(3, 0, false, 0, 0, 0, 0x80), "-2147483648")',
     "an INT outside -2^30..2^30-1",
     "large absolute values of INT wrap")

# ---------------------------------------------------------------- C11
cell("c11-seven-digits", "C11",
     [(RBR, '\t\t\tif frac0x == 7 {\n\t\t\t\tfmt.Fprintf(txt, "%07d", val)\n', '\t\t\tif frac0x == 7 {\n\t\t\t\tfmt.Fprintf(txt, "%06d", val)\n')],
     '\twant("value", cell(246, 8<<8+7, false, 0x81, 0, 0, 0, 5), "1.0000005")',
     "a scale of 7, 16 or 25 and a fraction (of the last group) below 0.1",
     "a zero is missing in the fraction")
cell("c11-zero-group", "C11",
     [(RBR, '\t\t\tfmt.Fprintf(txt, "%09d", val)\n\t\t\tpos += 4\n', '\t\t\tif val != 0 || i > 0 {\n\t\t\t\tfmt.Fprintf(txt, "%09d", val)\n\t\t\t} else {\n\t\t\t\tfmt.Fprintf(txt, "%010d", val)\n\t\t\t}\n\t\t\tpos += 4\n')],
     '\twant("value", cell(246, 12<<8+10, false, 0x81, 0, 0, 0, 0, 3), "1.0000000003")',
     "a scale of 9 and more with nine zeros after the point",
     "one zero too many in the fraction")
cell("c11-negative-leading", "C11",
     [(RBR, "\t\tval = uint32(d[0])<<16 +\n\t\t\t\tuint32(d[1])<<8 +\n\t\t\t\tuint32(d[2])\n", "\t\tval = uint32(d[0]&0x7)<<16 +\n\t\t\t\tuint32(d[1])<<8 +\n\t\t\t\tuint32(d[2])\n")] and
     [(RBR, "\t\t\t// 3 bytes, up to 6 digits\n\t\t\tval = uint32(d[0])<<16 +\n", "\t\t\t// 3 bytes, up to 6 digits\n\t\t\tval = uint32(d[0]&0x07)<<16 +\n")],
     '\twant("value", cell(246, 6<<8+0, false, 0x80|0x0d, 0xbb, 0xa0), "900000")',
     "5 or 6 leading integer digits with a value of 524288 and more",
     "the leading digits lose their highest bit")

# ---------------------------------------------------------------- C12
cell("c12-hours", "C12",
     [(RBR, "\t\thour := (hms >> 12) % (1 << 10)\n", "\t\thour := (hms >> 12) % (1 << 9)\n")],
     '\twant("value", cell(19, 0, false, be(0x800000+600<<12, 3)...), "600:00:00")',
     "a TIME of 512 hours and more",
     "the hours wrap at 512")
cell("c12-timestamp-2038", "C12",
     [(RBR, "\tt := time.Unix(int64(v), 0).Local()\n", "\tt := time.Unix(int64(int32(v)), 0).Local()\n")],
     '\ttime.Local = time.UTC\n\twant("value", cell(17, 0, false, be(1<<31, 4)...), "2038-01-19 03:14:08")',
     "a TIMESTAMP after 2038-01-19 03:14:07 UTC",
     "the instant is printed as one of 1901", imports=["time"])
cell("c12-zero-fraction", "C12",
     [(RBR, "\t\tsecond := binary.BigEndian.Uint32(data[pos : pos+4])\n\t\ttxt := printTimestamp(second)\n", "\t\tsecond := binary.BigEndian.Uint32(data[pos : pos+4])\n\t\ttxt := printTimestamp(second)\n\t\tif second == 0 {\n\t\t\treturn txt.Bytes(), 4 + (int(metadata)+1)/2, nil\n\t\t}\n")] and
     [(RBR, "\t\ttxt := printTimestamp(second)\n\t\tswitch metadata {\n", "\t\ttxt := printTimestamp(second)\n\t\tif second == 0 && metadata > 0 {\n\t\t\treturn txt.Bytes(), 4 + (int(metadata)+1)/2, nil\n\t\t}\n\t\tswitch typ := metadata; typ {\n")],
     '\twant("value", cell(17, 3, false, 0, 0, 0, 0, 0, 0), "0000-00-00 00:00:00.000")',
     "a zero TIMESTAMP(1..6)",
     "the zero timestamp has no fraction digits")

# ---------------------------------------------------------------- C13
cell("c13-char-255", "C13",
     [(RBR, "\t\tmax := int((((metadata >> 4) & 0x300) ^ 0x300) + (metadata & 0xff))\n\t\t// Length is encoded in 1 or 2 bytes.\n\t\tif max > 255 {\n\t\t\tl := int(uint64(data[pos]) |\n\t\t\t\tuint64(data[pos+1])<<8)\n\t\t\treturn data[pos+2 : pos+2+l], l + 2, nil\n",
       "\t\tmax := int((((metadata >> 4) & 0x300) ^ 0x300) + (metadata & 0xff))\n\t\t// Length is encoded in 1 or 2 bytes.\n\t\tif max >= 255 {\n\t\t\tl := int(uint64(data[pos]) |\n\t\t\t\tuint64(data[pos+1])<<8)\n\t\t\treturn data[pos+2 : pos+2+l], l + 2, nil\n"),
      (RBR, "\t\tif max > 255 {\n\t\t\tl := int(uint64(data[pos]) |\n\t\t\t\tuint64(data[pos+1])<<8)\n\t\t\treturn l + 2, nil\n", "\t\tif max >= 255 {\n\t\t\tl := int(uint64(data[pos]) |\n\t\t\t\tuint64(data[pos+1])<<8)\n\t\t\treturn l + 2, nil\n")],
     '\twant("value", cell(254, 254<<8+255, false, 2, \'a\', \'b\'), "ab")',
     "a CHAR or BINARY column of exactly 255 bytes",
     "length rule and decoder agree on a two-byte prefix where the master writes one")
plant("c13-empty-blob", "C13",
      [(RBR, "\t\t\treturn d, l + int(metadata), nil\n\t\t}\n\n\t\treturn data[pos : pos+l], l + int(metadata), nil\n", "\t\t\treturn d, l + int(metadata), nil\n\t\t}\n\n\t\treturn append([]byte(nil), data[pos:pos+l]...), l + int(metadata), nil\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{252}, []byte{2})
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0, 0, 0}, []byte{1})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("empty", show(ts[0].Events[0].RowValues[0]), "c=")
	want("NULL", show(ts[0].Events[0].RowValues[1]), "c=NULL")
}''',
      "an empty BLOB or TEXT",
      "the empty value looks like NULL")
cell("c13-varstring-trim", "C13",
     [(RBR, "\t\tl := int(data[pos])\n\t\treturn data[pos+1 : pos+1+l], l + 1, nil\n\tcase TypeGeometry:\n", "\t\tl := int(data[pos])\n\t\tv := bytes.TrimRight(data[pos+1:pos+1+l], \"\\x00\")\n\t\treturn v, l + 1, nil\n\tcase TypeGeometry:\n")],
     '\twant("value", cell(254, 254<<8+8, false, 3, \'a\', 0, 0), "a\\x00\\x00")',
     "a BINARY value that ends with zero bytes",
     "trailing zero bytes are cut off")

# ---------------------------------------------------------------- C14
JCELL = '''
func doc(b ...byte) string {
	d, _, err := replication.CellBytes(append(le(uint64(len(b)), 4), b...), 0, 245, 4, false)
	must(err)
	return string(d)
}
'''


def jdoc(id, edits, body, needs, what, imports=(), **kw):
    plant(id, "C14", edits, "func main() {\n%s\n}\n%s" % (body, JCELL), needs, what, imports, **kw)


jdoc("c14-large-uint32", [(JSON, "\tcase typ == jsonTypeUint32 && large:\n\t\t// Value is only inlined if large.\n\t\tprintJSONUint32(", "\tcase typ == jsonTypeUint32 && large:\n\t\t// Value is only inlined if large.\n\t\tprintJSONInt32(")],
     '\twant("document", doc(cat([]byte{3}, le(1, 4), le(13, 4), []byte{8}, le(3000000000, 4))...), "JSON_ARRAY(3000000000)")',
     "an unsigned 32-bit number above 2^31-1 inside a container in the large format",
     "it is printed as a negative number")
jdoc("c14-datetime-fraction", [(JSON, "\tfmt.Fprintf(result, \"CAST('%04d-%02d-%02d %02d:%02d:%02d\", year, month, day, hour, minute, second)\n\tif microSeconds != 0 {\n\t\tfmt.Fprintf(result, \".%06d\", microSeconds)\n", "\tfmt.Fprintf(result, \"CAST('%04d-%02d-%02d %02d:%02d:%02d\", year, month, day, hour, minute, second)\n\tif microSeconds != 0 {\n\t\tfmt.Fprintf(result, \".%d\", microSeconds)\n")],
     '\tv := uint64((2020*13+1)<<5+2)<<17 + 3<<12 + 4<<6 + 5\n\twant("document", doc(cat([]byte{15, 12, 8}, le(v<<24+1234, 8))...), "CAST(CAST(\'2020-01-02 03:04:05.001234\' AS DATETIME(6)) AS JSON)")',
     "a DATETIME in a document with less than 100000 microseconds",
     "the zeros after the point are missing")
jdoc("c14-int16-key-order", [(JSON, "\t\tkeyLength, pos = readOffsetOrSize(data, pos, false) // always 16\n", "\t\tkeyLength, pos = int(data[pos]), pos+2\n")],
     '\tk := strings.Repeat("k", 300)\n\twant("document", doc(cat([]byte{0}, le(1, 2), le(11+300, 2), le(11, 2), le(300, 2), []byte{5}, le(7, 2), []byte(k))...), "JSON_OBJECT(\'"+k+"\',7)")',
     "an object key of 256 bytes and more",
     "the key is cut", imports=["strings"])

# ---------------------------------------------------------------- C15
plant("c15-wide-metadata", "C15",
      [(RBR, "\tl = int(cnt)\n\tpos = nPos\n\n\t// Allocate", "\tl = int(byte(cnt))\n\tpos = nPos\n\n\t// Allocate")],
      '''
func main() {
	n := 150
	types, meta := make([]byte, n), make([]byte, 2*n)
	for i := range types {
		types[i] = 15
		meta[2*i] = 10
	}
	body := cat(le(9, 6), le(1, 2), []byte("\\x02db\\x00\\x01t\\x00"), []byte{byte(n)}, types, []byte{0xfc}, le(300, 2), meta, make([]byte, 19))
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	tm, err := replication.NewMysql56BinlogEvent(rawEvent(19, 1, 1, body)).TableMap(f)
	must(err)
	want("columns", tm.CanBeNull.Count(), n)
}''',
      "a table with 256 and more bytes of column metadata",
      "the table map is rejected")
plant("c15-varstring-order", "C15",
      [(RBR, "\tcase TypeNewDecimal, TypeEnum, TypeSet, TypeString:\n\t\t// Two bytes, Big Endian because of crazy encoding.\n\t\treturn uint16(data[pos])<<8 + uint16(data[pos+1]), pos + 2, nil\n\n\tcase TypeVarchar, TypeBit, TypeVarString:\n\t\t// Two bytes, Little Endian\n\t\treturn",
        "\tcase TypeNewDecimal, TypeEnum, TypeSet, TypeString, TypeVarString:\n\t\t// Two bytes, Big Endian because of crazy encoding.\n\t\treturn uint16(data[pos])<<8 + uint16(data[pos+1]), pos + 2, nil\n\n\tcase TypeVarchar, TypeBit:\n\t\t// Two bytes, Little Endian\n\t\treturn"),
       (RBR, "\tcase TypeNewDecimal, TypeEnum, TypeSet, TypeString:\n\t\t// Two bytes, Big Endian because of crazy encoding.\n\t\tdata[pos] = byte(value >> 8)", "\tcase TypeNewDecimal, TypeEnum, TypeSet, TypeString, TypeVarString:\n\t\t// Two bytes, Big Endian because of crazy encoding.\n\t\tdata[pos] = byte(value >> 8)"),
       (RBR, "\tcase TypeVarchar, TypeBit, TypeVarString:\n\t\t// Two bytes, Little Endian\n\t\tdata[pos] = byte(value)", "\tcase TypeVarchar, TypeBit:\n\t\t// Two bytes, Little Endian\n\t\tdata[pos] = byte(value)")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	tm, err := replication.NewMysql56BinlogEvent(rawEvent(19, 1, 1, tableMap(9, "db", "t", []byte{253}, []byte{10, 0}))).TableMap(f)
	must(err)
	want("metadata", tm.Metadata[0], 10)
}''',
      "a VAR_STRING column",
      "its maximum length is read (and written by the package's own builder) in the wrong byte order")
plant("c15-ordinal", "C15",
      [("streamer.go", "\t\tcolumn.Data, l, err = replication.CellBytes(data, pos, tc.tableMap.Types[c], tc.tableMap.Metadata[c],\n\t\t\ttc.table.Columns()[c].IsUnSignedInt())\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\n\t\tidentifies", "\t\tcolumn.Data, l, err = replication.CellBytes(data, pos, tc.tableMap.Types[c], tc.tableMap.Metadata[c],\n\t\t\ttc.table.Columns()[identifyIndex].IsUnSignedInt())\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\n\t\tidentifies")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{1, 1}, nil)
	l.add(32, rowsBody(9, 2, []byte{2}, []byte{0, 200})).xid()
	ts, err := deliveries(l, tables{"db.t": cols("a", "+b")}, "b.1", 4)
	must(err)
	want("row", show(ts[0].Events[0].RowIdentifies[0]), "a? b=200")
}''',
      "a partial before image and an unsigned column behind an absent one of other signedness",
      "the signedness of another column is used")

# ---------------------------------------------------------------- C16
EVENT = '''
func query(vars []byte, db, sql string) replication.Query {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	body := cat(le(1, 4), le(0, 4), []byte{byte(len(db))}, le(0, 2), le(uint64(len(vars)), 2), vars, []byte(db), []byte{0}, []byte(sql))
	q, err := replication.NewMysql56BinlogEvent(rawEvent(2, 1, 1, body)).Query(f)
	must(err)
	return q
}
'''
plant("c16-catalog-nz", "C16",
      [(COMMON, '				return query, fmt.Errorf("Q_CATALOG_NZ_CODE status var overflows buffer (%v + 1 > %v)", pos, len(vars))\n			}\n			pos += 1 + int(vars[pos])\n', '				return query, fmt.Errorf("Q_CATALOG_NZ_CODE status var overflows buffer (%v + 1 > %v)", pos, len(vars))\n			}\n			pos += 1 + int(vars[pos]&0x7f)\n')],
      '''
func main() {
	vars := cat([]byte{6, 200}, make([]byte, 200), []byte{4, 33, 0, 45, 0, 8, 0})
	q := query(vars, "db", "select 1")
	if q.Charset == nil {
		fail("no charset")
	}
	want("charset", *q.Charset, replication.Charset{Client: 33, Conn: 45, Server: 8})
}
''' + EVENT,
      "a catalog name of 128 bytes and more in front of the charset",
      "the charset is lost or wrong")
plant("c16-undef-checksum", "C16",
      [("replication/binlog_event_mariadb.go", "\tcase BinlogChecksumAlgOff, BinlogChecksumAlgUndef:\n", "\tcase BinlogChecksumAlgOff:\n")],
      '''
func main() {
	ev := replication.NewMariadbBinlogEvent(rawEvent(2, 1, 1, make([]byte, 30)))
	s, _, err := ev.StripChecksum(replication.BinlogFormat{FormatVersion: 4, HeaderLength: 19, ChecksumAlgorithm: 255})
	must(err)
	want("length", len(s.Bytes()), 49)
}''',
      "a MariaDB master whose format description leaves the checksum algorithm undefined",
      "four bytes of every event are taken for a checksum")

# ---------------------------------------------------------------- C17
plant("c17-bare-header", "C17",
      [(COMMON, "\tif bufLen < 19 {\n", "\tif bufLen <= 19 {\n")],
      '''
func main() {
	if !replication.NewMysql56BinlogEvent(rawEvent(3, 1, 1, nil)).IsValid() {
		fail("an event of 19 bytes is rejected")
	}
}''',
      "an event without a body (STOP without checksum)",
      "it is rejected as invalid")
plant("c17-empty-packet", "C17",
      [("streamer.go", "\t\tif !ev.IsValid() {\n", "\t\tif len(ev.Bytes()) == 0 {\n\t\t\tcontinue // keep-alive\n\t\t}\n\t\tif valid := ev.IsValid(); !valid {\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	l.events = append(l.events, nil)
	m := newMaster(send(l.tx(2)))
	s := newStreamer(m, nil, "b.1", 4)
	if s.Stream(context.Background(), func(*gb.Transaction) error { return nil }) == nil {
		fail("an empty event is accepted")
	}
}''',
      "an event packet without any bytes",
      "it is skipped instead of ending the stream with an error", imports=["context"])
plant("c17-length-16", "C17",
      [(COMMON, "\tif evLen < 19 || evLen != uint32(bufLen) {\n", "\tif evLen < 19 || uint16(evLen) != uint16(bufLen) {\n")],
      '''
func main() {
	e := rawEvent(2, 1, 1, make([]byte, 30))
	e[11] = 1 // the length field says 65585
	if replication.NewMysql56BinlogEvent(e).IsValid() {
		fail("accepted")
	}
}''',
      "a length field that is off by a multiple of 65536",
      "the event is accepted")
plant("c17-overlong-format", "C17",
      [("streamer.go", "\t\tif !ev.IsValid() {\n", "\t\tif b := ev.Bytes(); !ev.IsValid() && !(len(b) > 76 && ev.IsFormatDescription()) {\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	l.events[1] = append(l.events[1], make([]byte, 3)...)
	m := newMaster(send(l))
	s := newStreamer(m, nil, "b.1", 4)
	if s.Stream(context.Background(), func(*gb.Transaction) error { return nil }) == nil {
		fail("an over-long format description is accepted")
	}
}''',
      "a format description event with bytes missing or added",
      "it is used although its length field disagrees", imports=["context"])

# ---------------------------------------------------------------- C18
SETS = '''
func ids(f string, ns ...int) replication.GTIDSet {
	var s replication.GTIDSet = replication.Mysql56GTIDSet{}
	for _, n := range ns {
		s = s.AddGTID(id(f, n))
	}
	return s
}

func id(f string, n int) replication.GTID {
	return replication.MustParseGTID("MySQL56", f+"0000000-0000-0000-0000-000000000000:"+strconv.Itoa(n))
}
'''
SET56 = "replication/mysql56_gtid_set.go"
plant("c18-shared-tail", "C18",
      [(SET56, "\t\tnewIntervals := make([]interval, 0, len(intervals))\n", "\t\tif n := len(intervals); sid == gtid56.Server && gtid56.Sequence > intervals[n-1].end+1 {\n\t\t\t// Behind everything: appended below.\n\t\t\tnewSet[sid] = intervals\n\t\t\tcontinue\n\t\t}\n\t\tnewIntervals := make([]interval, 0, len(intervals)+1)\n")],
      '''
func main() {
	a := ids("a", 1, 3, 5)
	b := a.AddGTID(id("a", 7))
	c := a.AddGTID(id("a", 9))
	if !b.ContainsGTID(id("a", 7)) || b.ContainsGTID(id("a", 9)) {
		fail("adding to the same set twice: %s %s", b, c)
	}
}
''' + SETS,
      "two additions behind the last interval of the same set, whose interval list has spare capacity",
      "the second addition overwrites the result of the first one", imports=["strconv"])

# ---------------------------------------------------------------- C19
plant("c19-short-intervals", "C19",
      [(SET56, "\t\t\tif interval.end != interval.start {\n\t\t\t\tbuf.WriteByte('-')\n", "\t\t\tif interval.end == interval.start+1 {\n\t\t\t\tbuf.WriteByte(':')\n\t\t\t\tbuf.WriteString(strconv.FormatInt(interval.end, 10))\n\t\t\t} else if interval.end != interval.start {\n\t\t\t\tbuf.WriteByte('-')\n")] if False else
      [("replication/mariadb_gtid.go", "	return fmt.Sprintf(\"%d-%d-%d\", gtid.Domain, gtid.Server, gtid.Sequence)\n", "	return fmt.Sprintf(\"%d-%d-%d\", int32(gtid.Domain), gtid.Server, gtid.Sequence)\n")],
      '''
func main() {
	g := replication.MariadbGTID{Domain: 1 << 31, Server: 1, Sequence: 5}
	b, err := replication.ParseGTID("MariaDB", g.String())
	must(err)
	want("id", b, g)
}''',
      "a replication domain above 2^31-1",
      "its text is negative and cannot be parsed")
plant("c19-sid-block-end", "C19",
      [(SET56, "\t\t\t\tend:   int64(end - 1),\n", "\t\t\t\tend:   int64(uint32(end) - 1),\n")],
      '''
func main() {
	var s replication.GTIDSet = replication.Mysql56GTIDSet{}
	s = s.AddGTID(replication.MustParseGTID("MySQL56", "a0000000-0000-0000-0000-000000000000:5000000000"))
	b, err := replication.NewMysql56GTIDSetFromSIDBlock(s.(replication.Mysql56GTIDSet).SIDBlock())
	must(err)
	want("set", b, s)
}''',
      "sequence numbers of 2^32 and more in a SID block",
      "the ends of intervals are cut to 32 bits")
plant("c19-server-31", "C19",
      [("replication/mariadb_gtid.go", "\tServer, err := strconv.ParseUint(parts[1], 10, 32)\n", "\tServer, err := strconv.ParseInt(parts[1], 10, 32)\n")],
      '''
func main() {
	g := replication.MariadbGTID{Domain: 1, Server: 1<<32 - 1, Sequence: 5}
	b, err := replication.DecodeGTID(replication.EncodeGTID(g))
	must(err)
	want("id", b, g)
}''',
      "a MariaDB server id above 2^31-1",
      "the id cannot be parsed back")
plant("c19-contains-domain", "C19",
      [("replication/mariadb_gtid.go", "\t\tif gtid.Domain != mdbOther.Domain {\n\t\t\tcontinue\n\t\t}\n\t\treturn gtid.Sequence >= mdbOther.Sequence\n", "\t\tif gtid.Domain != mdbOther.Domain {\n\t\t\tcontinue\n\t\t}\n\t\treturn gtid.Sequence > mdbOther.Sequence || gtid == mdbOther\n")],
      '''
func main() {
	s := replication.MariadbGTIDSet{{Domain: 1, Server: 2, Sequence: 5}}
	if !s.ContainsGTID(replication.MariadbGTID{Domain: 1, Server: 3, Sequence: 5}) {
		fail("the position of the domain covers sequence 5")
	}
}''',
      "two ids of one domain with the same sequence number and different servers",
      "containment compares servers too")
plant("c19-gtid-event-sid", "C19",
      [("replication/binlog_event_mysql56.go", "\tgno := int64(binary.LittleEndian.Uint64(data[1+16 : 1+16+8]))\n", "\tgno := int64(binary.LittleEndian.Uint32(data[1+16 : 1+16+8]))\n")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	g, _, err := replication.NewMysql56BinlogEvent(rawEvent(33, 1, 1, cat([]byte{1}, make([]byte, 16), le(1<<33+1, 8)))).GTID(f)
	must(err)
	want("sequence", g.SequenceNumber(), int64(1<<33+1))
}''',
      "a GTID event with a sequence number of 2^32 and more",
      "the number is cut to 32 bits")

# ---------------------------------------------------------------- C20
JSONX = '''
func marshal(t *gb.Transaction) map[string]interface{} {
	b, err := json.Marshal(t)
	must(err)
	var v map[string]interface{}
	must(json.Unmarshal(b, &v))
	return v
}

func one(c *gb.ColumnData) map[string]interface{} {
	v := marshal(&gb.Transaction{Events: []*gb.StreamEvent{{Type: gb.StatementInsert, RowValues: []*gb.RowData{{Columns: []*gb.ColumnData{c}}}}}})
	e := v["events"].([]interface{})[0].(map[string]interface{})
	return e["rowValues"].([]interface{})[0].(map[string]interface{})["Columns"].([]interface{})[0].(map[string]interface{})
}
'''
plant("c20-empty-is-null", "C20",
      [("transaction.go", "\tif c.Data == nil {\n\t\ti = nil\n\t}\n", "\tif len(c.Data) == 0 {\n\t\ti = nil\n\t}\n")],
      '''
func main() {
	if d := one(&gb.ColumnData{Filed: "c", Type: 15, Data: []byte{}})["data"]; d != "" {
		fail("empty data: %v", d)
	}
}
''' + JSONX,
      "an empty string value",
      "it is rendered as null", imports=["encoding/json"])
plant("c20-dml-statement", "C20",
      [("transaction.go", "\tif s.Query.SQL != \"\" {\n", "\tif s.Query.SQL != \"\" && (s.Type < StatementInsert || s.Type > StatementDelete) {\n")],
      '''
func main() {
	v := marshal(&gb.Transaction{Events: []*gb.StreamEvent{{Type: gb.StatementInsert, Query: replication.Query{SQL: "insert into t values (1)"}}}})
	e := v["events"].([]interface{})[0].(map[string]interface{})
	want("sql", e["sql"], "insert into t values (1)")
}
''' + JSONX,
      "a statement-format INSERT, UPDATE or DELETE",
      "its SQL text is left out", imports=["encoding/json"])
plant("c20-raw-field", "C20",
      [("transaction.go", "\tvar i interface{} = string(c.Data)\n", "\tvar i interface{} = string(c.Data)\n\tif c.Type.IsInteger() || c.Type.IsFloat() || c.Type.IsDecimal() {\n\t\tif json.Valid(c.Data) {\n\t\t\ti = json.RawMessage(c.Data)\n\t\t}\n\t}\n")] if False else
      [("transaction.go", "\tvar i interface{} = string(c.Data)\n", "\tvar i interface{} = string(bytes.TrimRight(c.Data, \"\\x00\"))\n"),
       ("transaction.go", 'import (\n', 'import (\n\t"bytes"\n')],
      '''
func main() {
	want("data", one(&gb.ColumnData{Filed: "c", Type: 254, Data: []byte("a\\x00")})["data"], "a\\x00")
}
''' + JSONX,
      "data that ends with zero bytes",
      "the zero bytes are cut off", imports=["encoding/json"])
plant("c20-type-names", "C20",
      [("mysql_types.go", '\t\tcolumnTypeNewDate:    "NewDate",\n', '\t\tcolumnTypeNewDate:    "Date",\n')],
      '''
func main() {
	want("type", one(&gb.ColumnData{Filed: "c", Type: 14, Data: []byte("2020-01-02")})["type"], "NewDate")
}
''' + JSONX,
      "a column of the internal NEWDATE type",
      "its type name is that of another type", imports=["encoding/json"])
