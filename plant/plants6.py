from plants1 import RBR, COMMON, JSON
PLANTS = []
ST, SC, TX = "streamer.go", "slave_connection.go", "transaction.go"


def plant(id, prop, edits, main, needs, what, imports=(), **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, what=what, imports=list(imports), **kw))


plant("c06-old-format", "C06",
      [(COMMON, "\tif f.FormatVersion != 4 {\n", "\tif f.FormatVersion > 4 {\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	f := formatEvent()
	f[19] = 3
	l.events = append(l.events, f)
	_, err := deliveries(l, nil, "b.1", 4)
	want("failed", err != nil, true)
}''',
      "a format description of version 3 as the last event before the end of the stream", "nothing is reported")
plant("c06-unsent-request", "C06",
      [(SC, "\t\treturn nil, newError(err).msgf(\"noticeDump fail\")\n", "\t\tif err != mysql.ErrPktTooLarge { // the master says so better\n\t\t\treturn nil, newError(err).msgf(\"noticeDump fail\")\n\t\t}\n")],
      '''
func main() {
	m := newMaster(send(newBinlog("b.1", 4).tx(1)))
	st, err := gb.NewStreamer(m.dsn()+"&maxAllowedPacket=1000", 7, tables{})
	must(err)
	st.SetBinlogPosition(gb.Position{Filename: strings.Repeat("b", 1200), Offset: 4})
	within(5*time.Second, "Stream returns", func() {
		err = st.Stream(context.Background(), func(*gb.Transaction) error { return nil })
	})
	want("failed", err != nil || st.Error() != nil, true)
}''',
      "a dump request that exceeds the configured packet size", "Stream waits for an answer to a request that was never sent", imports=["context", "strings", "time"])
