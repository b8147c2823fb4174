package main

import (
	"math/rand"
	"os"
	"strconv"
	"strings"
	"time"
)

// family is a set of scenarios, each made from its number alone.
type family struct {
	n, deep int
	make    func(id int, r *rand.Rand) *scenario
}

var families = map[string]family{}

func eof() attempt { return attempt{limit: -1, end: "eof"} }

// fresh is a scenario over a history from the beginning.
func fresh(h *history, as ...attempt) *scenario {
	return &scenario{h: h, file: h.files[0].name, off: h.files[0].base, attempts: as}
}

// cmdStreams runs the scenarios of a family; options: shard=k/n, only=id,id..., words=file.
func cmdStreams(which, out string, seed int64, deep bool, opts []string) {
	f, ok := families[which]
	if !ok {
		fatal("unknown family ", which)
	}
	n := f.n
	if deep {
		n = f.deep
	}
	k, m := 0, 1
	var only map[int]bool
	for _, o := range opts {
		switch {
		case strings.HasPrefix(o, "shard="):
			p := strings.SplitN(o[6:], "/", 2)
			k, _ = strconv.Atoi(p[0])
			m, _ = strconv.Atoi(p[1])
		case strings.HasPrefix(o, "only="):
			only = map[int]bool{}
			for _, x := range strings.Split(o[5:], ",") {
				i, _ := strconv.Atoi(x)
				only[i] = true
			}
		case strings.HasPrefix(o, "words="):
			loadWords(o[6:])
			n = len(words)
		case strings.HasPrefix(o, "deadline="):
			ms, _ := strconv.Atoi(o[9:])
			deadline = time.Duration(ms) * time.Millisecond
		case strings.HasPrefix(o, "n="):
			n, _ = strconv.Atoi(o[2:])
		}
	}
	rn := &runner{w: newWriter(out), stats: map[string]int{}, races: os.Getenv("RACE_LOG")}
	for id := k; id < n; id += m {
		if only != nil && !only[id] && !only[id+twinBase] {
			continue
		}
		r := rand.New(rand.NewSource(seed*1000003 + int64(id)))
		s := f.make(id, r)
		if s == nil {
			continue
		}
		s.id = id
		if s.zone == 0 {
			s.zone = pick(r, 0, 28800, -18000, 20700, -34200)
		}
		if s.serverID == 0 {
			s.serverID = 1 + r.Uint32()>>1
		}
		// should the process die, this is the scenario that did it
		os.WriteFile(out+".cur", []byte(strconv.Itoa(id)), 0o644)
		rn.run(s)
	}
	rn.w.close()
	summary(rn.w.n, rn.stats)
}
