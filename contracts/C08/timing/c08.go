//go:build verif && go1.21

package timing

import (
	"math/big"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

func c08Sane(t int64) bool { return -(1<<60) <= t && t <= 1<<60 }
func c08Time(t int64) bool { return -(1<<59) < t && t < 1<<59 }

// c08Calc is the estimate of one round: half of the sum of the clock differences, toward zero.
func c08Calc(cs, sr, ss, cr int64) int64 { return ((sr - cs) + (ss - cr)) / 2 }

// c08Sum is the sum of the first k values of x, unbounded.
func c08Sum(x []int64) func(k int) big.Int {
	return v.Rec(*big.NewInt(0), func(k int, prev big.Int) big.Int {
		return *new(big.Int).Add(&prev, big.NewInt(x[k]))
	})
}

// One reply, while others reply, reset and read the clock: the state is taken when the lock is acquired.
func C08_Reply(cs, sr, ss, cr int64) {
	v.Requires(c08Time(cs) && c08Time(sr) && c08Time(ss) && c08Time(cr))
	x := c08Calc(cs, sr, ss, cr)
	var old, all []int64
	var oldOffset int64
	var expected int
	var sum func(k int) big.Int
	state := func() {
		c08Any()
		old, oldOffset, expected = v.Snap(offsets), offset, cap(offsets)
		all = append(v.Snap(offsets), x)
		sum = c08Sum(all)
	}
	state()
	v.OnLock(&offsetsMutex, state)
	v.Guarded("offsets", &offsetsMutex, &offsets)
	v.Guarded("offset", &offsetsMutex, &offset)
	v.Inv(func(m int, a *big.Int) bool { s := sum(m); return a.Cmp(&s) == 0 })
	v.Inv(func(m int, a *big.Int) bool {
		b := new(big.Int).Mul(big.NewInt(int64(m)), big.NewInt(1<<60))
		return a.Cmp(b) <= 0 && new(big.Int).Neg(b).Cmp(a) <= 0
	})
	UpdateOffset(cs, sr, ss, cr)
	n := len(all)
	if len(old) == expected {
		v.Cover("no reply is expected")
		v.Ensures("an unexpected reply changes nothing", offset == oldOffset)
		return
	}
	v.Ensures("every round is kept once, unchanged", len(offsets) == n && v.Forall(0, n, func(i int) bool { return offsets[i] == all[i] }))
	v.Ensures("the number of expected rounds stays", cap(offsets) == expected)
	if n < expected {
		v.Cover("not the last round")
		v.Ensures("the offset changes only with the last round", offset == oldOffset)
		return
	}
	v.Cover("the last round")
	s := sum(n)
	lo := new(big.Int).Mul(big.NewInt(offset), big.NewInt(int64(n)))
	hi := new(big.Int).Add(lo, big.NewInt(int64(n)))
	v.Ensures("the floor of the mean of all rounds", lo.Cmp(&s) <= 0 && s.Cmp(hi) < 0)
}

// c08Any puts the clock into any state.
func c08Any() {
	offset = v.Any[int64]()
	expected := v.AnyInt(0, v.Bound(1<<40, 20))
	offsets = make([]int64, v.AnyInt(0, expected), expected)
	v.HavocSlice(offsets)
	v.Assume(v.Forall(0, len(offsets), func(i int) bool { return c08Sane(offsets[i]) }))
}

// Starting over leaves no round and keeps the offset.
func C08_Reset(n int) {
	v.Requires(0 <= n && n <= v.Bound(1<<40, 1000))
	c08Any()
	before := offset
	v.Guarded("offsets", &offsetsMutex, &offsets)
	v.Guarded("offset", &offsetsMutex, &offset)
	ResetOffsets(n)
	v.Ensures("no round is left over", len(offsets) == 0)
	v.Ensures("as many rounds as asked for are expected", cap(offsets) == n)
	v.Ensures("the offset stays", offset == before)
}

// A whole synchronisation of n rounds, executed (its steps are proved above).
//
//govc:bounded
func C08_Sync(extra int64) {
	n := v.AnyInt(1, 20)
	bits := v.AnyInt(1, 59)
	times := func() []int64 {
		r := make([]int64, n)
		for i := range r {
			r[i] = int64(v.AnyInt(-(1<<bits)+1, 1<<bits-1))
		}
		return r
	}
	cs, sr, ss, cr := times(), times(), times(), times()
	c08Any()
	before := offset
	ResetOffsets(n)
	v.Ensures("no round is left over", len(offsets) == 0 && cap(offsets) == n && offset == before)
	sum := v.Rec(*big.NewInt(0), func(k int, prev big.Int) big.Int {
		return *new(big.Int).Add(&prev, big.NewInt(c08Calc(cs[k], sr[k], ss[k], cr[k])))
	})
	for i := 0; i < n; i++ {
		v.Assert("the offset changes only with the last round", offset == before)
		UpdateOffset(cs[i], sr[i], ss[i], cr[i])
	}
	s := sum(n)
	lo := new(big.Int).Mul(big.NewInt(offset), big.NewInt(int64(n)))
	hi := new(big.Int).Add(lo, big.NewInt(int64(n)))
	v.Ensures("the floor of the mean of all rounds", lo.Cmp(&s) <= 0 && s.Cmp(hi) < 0)
	after := offset
	UpdateOffset(extra, extra, extra, extra)
	v.Ensures("only the expected rounds count", offset == after)
}

// The estimate of a round: exact when both directions take equally long, otherwise off by at most half of
// the round trip, rounded up to whole nanoseconds.
func C08_Estimate(t, ahead, out, stay, back int64) {
	v.Requires(0 <= out && out < 1<<55 && 0 <= stay && stay < 1<<55 && 0 <= back && back < 1<<55)
	v.Requires(-(1<<55) < t && t < 1<<55 && -(1<<55) < ahead && ahead < 1<<55)
	ResetOffsets(1)
	UpdateOffset(t, t+out+ahead, t+out+stay+ahead, t+out+stay+back)
	d := offset - ahead
	if out == back {
		v.Cover("symmetric")
		v.Ensures("the true offset", d == 0)
	}
	v.Ensures("off by at most half the round trip", 2*d <= out+back+1 && -2*d <= out+back+1)
}

// The synchronised clock is the raw clock plus the offset.
//
//govc:norun
func C08_Clock() {
	now := v.Any[uint64]()
	v.Requires(now < 1<<62)
	reads := 0
	v.External("github.com/aristanetworks/goarista/monotime.Now", func() uint64 { reads++; return now })
	c08Any()
	v.Requires(c08Sane(offset))
	v.Guarded("offset", &offsetsMutex, &offset)
	raw := GetRawTime()
	synced := GetSyncedTime()
	v.Ensures("one reading each", reads == 2)
	v.Ensures("the raw clock", raw == int64(now))
	v.Ensures("the raw clock plus the offset", synced == int64(now)+offset)
}
