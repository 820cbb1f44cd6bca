// Running this program inside the emulator: a big-endian host.

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

const guestMark = "\n==GUEST RESULT==\n"

// emulated tells whether the variant's program runs in the emulator.
func emulated(v string) bool { return strings.HasPrefix(v, "mips") }

func setShard() {
	if i := strings.IndexByte(*flagVar, '#'); i >= 0 {
		shardIndex, _ = strconv.Atoi((*flagVar)[i+1:])
		shardCount = hostShards
	}
}

// guest is the main program inside the emulator. It has no files: results
// go to the standard output.
func guest() {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(300)
	makeSlots("")
	for _, k := range strings.Split(*flagKnown, ",") {
		knownFindings[k] = ""
	}
	thorough := *flagTier == "thorough"
	if *flagReplay != "" {
		for _, fam := range families {
			if fam.Name != *flagReplay || fam.Custom != nil {
				continue
			}
			x := &Exploration{fam: fam, thorough: thorough, states: newStateSet(), knownIDs: map[string]int64{}}
			var choices []int
			_ = json.Unmarshal([]byte(*flagChoice), &choices)
			c := x.newCtx(choices, nil)
			c.verbose = true
			if msg := x.runOne(c); msg != "" {
				emit([]FamilyResult{{Name: fam.Name, Failure: &Failure{Message: msg}}})
				return
			}
		}
		emit([]FamilyResult{})
		return
	}
	setShard()
	emit(exploreAll(thorough, time.Now().Add(time.Duration(*flagBudget*float64(time.Second)))))
}

func emit(rs []FamilyResult) {
	b, _ := json.Marshal(rs)
	os.Stdout.WriteString(guestMark)
	os.Stdout.Write(b)
	os.Stdout.WriteString("\n")
}

// runGuest explores a shard (or replays an execution) in the emulator.
func runGuest(bin, prop, tier, v string, share float64, rep *Failure) (o childOut) {
	var known []string
	for k := range knownFindings {
		known = append(known, k)
	}
	args := []string{"guest", "-guest", "-prop", prop, "-tier", tier, "-variant", v, "-budget", fmt.Sprintf("%.1f", share), "-family", *flagFamily, "-known", strings.Join(known, ",")}
	if rep != nil {
		b, _ := json.Marshal(rep.Choices)
		args = append(args, "-replay", rep.Family, "-choices", string(b))
	}
	m, err := newMips(bin, args, []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1"})
	if err != nil {
		o.err = err
		return
	}
	m.deadline = time.Now().Add(time.Duration((share + 30) * float64(time.Second)))
	m.leap = time.Now().Add(time.Duration(share * float64(time.Second)))
	m.run()
	out := m.out.Bytes()
	if i := bytes.LastIndex(out, []byte(guestMark)); i >= 0 && m.exitCode == 0 {
		if err := json.Unmarshal(bytes.TrimSpace(out[i+len(guestMark):]), &o.results); err == nil {
			for i := range o.results {
				o.results[i].Variant = v
				if f := o.results[i].Failure; f != nil {
					f.Variant = v
					f.Tier = tier
					f.Message = "on a big-endian host: " + f.Message
					o.failure = f
				}
			}
			return
		}
	}
	text := string(out)
	if len(text) > 3000 {
		text = text[:3000] + "..."
	}
	if m.fault == "" && (strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:")) && !strings.Contains(text, "out of memory") {
		o.failure = &Failure{Property: prop, Variant: v, Tier: tier, Message: "on a big-endian host, the program died:\n" + text}
		return
	}
	o.note = fmt.Sprintf("NOTE: emulation of variant %q ended early (exit %d, %s):\n%s\n", v, m.exitCode, m.fault, text)
	return
}
