package pbt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"runtime/coverage"
	"strings"
)

// A guided phase runs the generator of an ordinary phase on mutated choices: lists of
// choices that reached a block of gostl more often (by powers of two) than any before are
// kept, and cases are made from them by changing, deleting, repeating and joining parts.
// Its workers are built with coverage counters. Like all others, its cases follow from the
// seed alone as long as the code under test does.

const guidedSuffix = "-guided"

// fresh in a list of choices asks for a random one.
const fresh = 1<<64 - 0x5eed

// base gives the name of the phase whose generator ph runs.
func (ph *Phase) base() string { return strings.TrimSuffix(ph.Name, guidedSuffix) }

// guidedOf gives the guided form of a phase, if it has one.
func guidedOf(ph *Phase) (Phase, bool) {
	if ph.Race || ph.Sched || ph.NoRerun || ph.Procs > 1 || ph.Workers != 0 || ph.Quick < 20000 {
		return Phase{}, false
	}
	g := *ph
	g.Name += guidedSuffix
	g.Thorough, g.Guided = min(ph.Quick/2, 100000), true
	return g, true
}

// corpus holds the lists of choices worth changing.
type corpus struct {
	rnd   *Rng
	lists [][]uint64
	seen  map[uint64]struct{}
	buf   bytes.Buffer
}

// next makes the choices of a case.
func (c *corpus) next() []uint64 {
	r := c.rnd
	if len(c.lists) == 0 || r.N(8) == 0 {
		return nil
	}
	l := append([]uint64(nil), c.pick()...)
	for k := 1 + r.N(5); k > 0 && len(l) > 0; k-- {
		i := int(r.N(uint64(len(l))))
		n := min(1+int(r.N(1<<r.N(6))), len(l)-i)
		switch r.N(8) {
		case 0, 1:
			l[i] = fresh
		case 2:
			l[i] = r.N(1 << r.N(9))
		case 3:
			l[i] += r.N(3) - 1
		case 4:
			l = append(l[:i:i], l[i+n:]...)
		case 5: // again
			if len(l) < 4000 {
				part := append([]uint64(nil), l[i:i+n]...)
				for m := 1 + r.N(4); m > 0; m-- {
					l = append(l[:i:i], append(append([]uint64(nil), part...), l[i:]...)...)
				}
			}
		case 6: // the end of another
			o := c.pick()
			j := min(i+int(r.N(9)), len(o))
			if r.N(2) == 0 {
				j = int(r.N(uint64(len(o) + 1)))
			}
			l = append(l[:i:i], o[j:]...)
		case 7:
			l = l[:i]
		}
	}
	return l
}

func (c *corpus) pick() []uint64 {
	n := uint64(len(c.lists))
	if c.rnd.N(2) == 0 { // a recent one
		return c.lists[n-1-c.rnd.N(min(n, 16))]
	}
	return c.lists[c.rnd.N(n)]
}

// learn keeps the choices of a case that reached something new.
func (c *corpus) learn(rec []uint64) error {
	c.buf.Reset()
	if err := coverage.WriteCounters(&c.buf); err != nil {
		return err
	}
	news := false
	err := counters(c.buf.Bytes(), func(block uint64, n uint64) {
		f := block<<8 | uint64(bits.Len64(n))
		if _, ok := c.seen[f]; !ok {
			c.seen[f] = struct{}{}
			news = true
		}
	})
	if news && len(rec) > 0 && len(rec) < 1500 {
		c.lists = append(c.lists, append([]uint64(nil), trim(rec)...))
	}
	return err
}

// counters walks a counter file as runtime/coverage writes it.
func counters(b []byte, visit func(block, n uint64)) error {
	bad := fmt.Errorf("coverage counters in a form not known")
	if len(b) < 48 || string(b[1:4]) != "cwm" && string(b[1:4]) != "ccm" {
		return fmt.Errorf("%w: % x", bad, b[:min(len(b), 48)])
	}
	flavor := b[24] // 1: raw, 2: ULEB128
	o := b[32:]
	funcs := binary.LittleEndian.Uint64(o)
	skip := int(binary.LittleEndian.Uint32(o[8:])) + int(binary.LittleEndian.Uint32(o[12:]))
	off := 32 + 16 + skip
	off = (off + 3) &^ 3
	next := func() uint64 {
		if flavor == 2 {
			v, n := binary.Uvarint(b[min(off, len(b)):])
			if n <= 0 {
				off = len(b) + 1
				return 0
			}
			off += n
			return v
		}
		if off+4 > len(b) {
			off = len(b) + 1
			return 0
		}
		v := binary.LittleEndian.Uint32(b[off:])
		off += 4
		return uint64(v)
	}
	for ; funcs > 0; funcs-- {
		n, pkg, fn := next(), next(), next()
		for i := uint64(0); i < n; i++ {
			if v := next(); v > 0 {
				visit(pkg<<40|fn<<20|i, v)
			}
			if off > len(b) {
				return bad
			}
		}
	}
	return nil
}

func (w *worker) guided() int {
	base := filepath.Join(w.out, fmt.Sprintf("%s-%d", w.ph.Name, w.shard))
	f, err := os.OpenFile(base+".progress", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUse
	}
	w.progress = f
	w.mark(-1)
	pre, err := os.Create(base + ".pre")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUse
	}
	c := &corpus{rnd: NewRng(caseSeed(w.seed, w.p.ID, w.ph.Name, 1<<40+w.shard)), seen: map[uint64]struct{}{}}
	res := shardResult{Classes: map[string]int{}}
	var hashes, pb []byte
	for i := w.shard; i < w.n; i += w.shards {
		l := c.next()
		pb = binary.LittleEndian.AppendUint64(pb[:0], uint64(len(l)))
		for _, v := range l {
			pb = binary.LittleEndian.AppendUint64(pb, v)
		}
		pre.WriteAt(pb, 0)
		w.mark(int64(i))
		t := w.newT(i)
		t.pre, t.steer = l, true
		if err := coverage.ClearCounters(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitUse
		}
		o := runOne(w.ph, t)
		res.Evaluated++
		if o.failed {
			w.fail(base, i, o)
			return exitFail
		}
		if err := c.learn(o.rec); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitUse
		}
		if o.skipped {
			res.Skipped++
			continue
		}
		res.MaxChoices = max(res.MaxChoices, len(o.rec))
		for _, k := range o.classes {
			res.Classes[k]++
		}
		if o.nontriv {
			res.NonTrivial++
			h := uint64(14695981039346656037)
			for _, v := range o.rec {
				h = mix(h, v)
			}
			hashes = binary.LittleEndian.AppendUint64(hashes, h)
		}
	}
	w.mark(-2)
	res.Classes["(choices kept for reaching something new)"] = len(c.lists)
	res.Classes["(blocks and counts reached)"] = len(c.seen)
	if err := os.WriteFile(base+".hashes", hashes, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUse
	}
	writeJSON(base+".json", res)
	return exitOK
}

// readPre reads the choices a guided worker began its last case with.
func readPre(path string) []uint64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	var l []uint64
	for b = b[8:]; n > 0 && len(b) >= 8; n, b = n-1, b[8:] {
		l = append(l, binary.LittleEndian.Uint64(b))
	}
	return l
}

// ListGuided prints the phases that have a guided form.
func ListGuided() {
	for _, id := range IDs() {
		for i := range registry[id].Phases {
			if g, ok := guidedOf(&registry[id].Phases[i]); ok {
				fmt.Println(id, g.Name, g.Thorough)
			}
		}
	}
}
