package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
)

var profOn = os.Getenv("FC_PROF") != ""
var profCnt = map[string]int{}
var profStates = map[string][]string{}

func prof(x *Exec, s *State, k string) {
	if !profOn {
		return
	}
	f := s.top()
	key := fmt.Sprintf("%s#%d(%s) depth %d", fnName(f.fn), f.blk.Index, f.blk.Comment, len(s.frames))
	profCnt[key]++
	if len(profStates[key]) < 4000 {
		profStates[key] = append(profStates[key], k)
	}
}

func init() {
	if f := os.Getenv("FC_CPU"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
}

func profDump() {
	pprof.StopCPUProfile()
	if !profOn {
		return
	}
	var ks []string
	for k := range profCnt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return profCnt[ks[i]] > profCnt[ks[j]] })
	for i, k := range ks {
		if i > 25 {
			break
		}
		fmt.Fprintln(os.Stderr, profCnt[k], k)
	}
	if f := os.Getenv("FC_DUMP"); f != "" {
		w, _ := os.Create(f)
		for i := 0; i < 3 && i < len(ks); i++ {
			for _, st := range profStates[ks[i]] {
				fmt.Fprintln(w, ks[i], st)
			}
		}
		w.Close()
	}
	if len(ks) > 0 {
		for _, st := range []int{0, 1, 2, 1000, 1001, 3990, 3991} {
			l := profStates[ks[0]]
			if st < len(l) {
				fmt.Fprintln(os.Stderr, "-----", st, l[st])
			}
		}
	}
}
