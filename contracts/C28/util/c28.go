//go:build verif && go1.21

package util

import (
	"errors"
	"fmt"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"strconv"
	"strings"
	"sync"
)

// c28More gives the collector the errors other goroutines added meanwhile.
func c28More(ec *ErrorCollector) {
	old := ec.errs
	more := v.Any[[]error]()
	v.Assume(len(more) >= len(old))
	v.Assume(v.Forall(0, len(old), func(i int) bool { return more[i] == old[i] }))
	v.Assume(v.Or(more == nil, len(more) > 0))
	v.Assume(v.Forall(0, len(more), func(i int) bool { return more[i] != nil }))
	ec.errs = more
}

// Adding an error appends it once to the errors added so far, whatever other goroutines add, and the error is waited
// for from the moment Add returns until it is there.
//
//govc:norun
func C28_Add(ec *ErrorCollector, err error) {
	v.Requires(ec != nil && err != nil)
	v.DeferGo()
	v.Guarded("the list of errors", &ec.errsMutex, &ec.errs)
	var before []error
	pending := 0
	count, got := 0, []error(nil)
	recorded := func() bool {
		n := len(before)
		return count == 1 && len(got) == n+1 && got[n] == err && v.Forall(0, n, func(i int) bool { return got[i] == before[i] })
	}
	v.OnLock(&ec.errsMutex, func() {
		c28More(ec)
		before = append([]error(nil), ec.errs...)
		count++
	})
	v.External("(*sync.WaitGroup).Add", func(wg *sync.WaitGroup, n int) {
		v.Assert("the collector's own pending additions are counted", wg == &ec.wg)
		pending += n
	})
	v.External("(*sync.WaitGroup).Done", func(wg *sync.WaitGroup) {
		v.Assert("the collector's own pending additions are counted", wg == &ec.wg)
		pending--
		got = ec.errs
		v.Assert("an addition is pending until the error is there", pending > 0 || recorded())
	})
	ec.Add(err)
	got = ec.errs
	v.Ensures("the error is there or its addition is waited for", pending > 0 || recorded())
	v.RunSpawned()
	got = ec.errs
	v.Ensures("the error is appended once", recorded())
	v.Ensures("the addition is over", pending == 0)
	v.Ensures("the list of errors is unlocked", !v.Held(&ec.errsMutex))
}

// A collector reports, after waiting, exactly the errors that were added, with the base message.
//
//govc:norun
func C28_Err(ec *ErrorCollector, base string) {
	v.Requires(ec != nil)
	v.Guarded("the list of errors", &ec.errsMutex, &ec.errs)
	waited := false
	var added []error
	v.External("(*sync.WaitGroup).Wait", func(wg *sync.WaitGroup) {
		v.Assert("the pending additions are waited for without keeping them from the list", wg == &ec.wg && !v.Held(&ec.errsMutex))
		c28More(ec)
		added = append([]error(nil), ec.errs...)
		waited = true
	})
	err := ec.Err(base)
	v.Ensures("waited for the pending additions", waited)
	v.Ensures("an error exactly if at least one was added", (err != nil) == (len(added) > 0))
	if err != nil {
		m, ok := err.(MultiError)
		v.Ensures("a combined error", ok)
		v.Ensures("the given base message", m.BaseMessage == base)
		v.Ensures("every added error once", len(m.Errors) == len(added) && v.Forall(0, len(added), func(i int) bool { return m.Errors[i] == added[i] }))
		v.Cover("some errors")
	} else {
		v.Cover("no error")
	}
	v.Ensures("the list of errors is unlocked", !v.Held(&ec.errsMutex))
}

// The combined error has the base message and the errors it is made from.
func C28_New(base string, errs []error) {
	m := NewMultiError(base, errs)
	v.Ensures("the base message", m.BaseMessage == base)
	v.Ensures("the errors", len(m.Errors) == len(errs) && v.Forall(0, len(errs), func(i int) bool { return m.Errors[i] == errs[i] }))
}

func c28Text(errs []error) func(k int) string {
	return v.Rec("", func(k int, prev string) string {
		if k > 0 {
			prev += "; "
		}
		return prev + strconv.Itoa(k) + ": " + fmt.Sprintf("%v", errs[k])
	})
}

// The text of a combined error has the base message and, numbered from 0 in order, the text of every error.
//
//govc:norun
func C28_Text(base string, errs []error) {
	v.Requires(v.Forall(0, len(errs), func(i int) bool { return errs[i] != nil }))
	errs = append([]error(nil), errs...)
	want := c28Text(errs)
	item := func(k int) string { return strconv.Itoa(k) + ": " + fmt.Sprintf("%v", errs[k]) }
	v.Inv(func(i int, msgs []string) bool {
		return len(msgs) == len(errs) && v.Forall(0, i+1, func(j int) bool { return msgs[j] == item(j) })
	})
	v.Inv(func(i int, msgs []string) bool { // texts are appended
		return len(msgs) == i+1 && i < len(errs) && v.Forall(0, len(msgs), func(j int) bool { return msgs[j] == item(j) })
	})
	v.Inv(func(i int, msgs []string) bool {
		return len(msgs) == i && i <= len(errs) && v.Forall(0, len(msgs), func(j int) bool { return msgs[j] == item(j) })
	})
	v.Inv(func(i int, msgs []string) bool {
		return len(msgs) == len(errs) && 0 <= i && v.Forall(0, i, func(j int) bool { return msgs[j] == item(j) })
	})
	v.External("strings.Join", func(elems []string, sep string) string {
		v.Assert("a text for every error", len(elems) == len(errs))
		v.Assert("the texts are numbered", v.Forall(0, len(elems), func(i int) bool { return elems[i] == item(i) }))
		v.Assert("the texts are separated", sep == "; ")
		return want(len(errs))
	})
	text := MultiError{BaseMessage: base, Errors: errs}.Error()
	v.Ensures("the base message and the text of every error", text == base+": "+want(len(errs)))
}

// Errors added from many goroutines are all reported (executed).
//
//govc:bounded
func C28_Run(n int, base string) {
	v.Requires(0 <= n && n <= 40)
	if v.AnyInt(0, 3) == 0 {
		base = []string{"100%", "%s", "a %d b%%", ""}[v.AnyInt(0, 3)]
	}
	var ec ErrorCollector
	var wg sync.WaitGroup
	times := v.AnyInt(1, 3)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			err := errors.New("<" + strconv.Itoa(i) + ">")
			for k := 0; k < times; k++ {
				ec.Add(err)
			}
		}(i)
	}
	wg.Wait()
	if v.AnyBool() {
		ec.Wait()
	}
	err := ec.Err(base)
	v.Ensures("an error exactly if at least one was added", (err != nil) == (n > 0))
	if n == 0 {
		return
	}
	ec.Add(errors.New("later"))
	m := err.(MultiError)
	v.Ensures("the base message", m.BaseMessage == base)
	v.Ensures("as many errors as were added", len(m.Errors) == times*n)
	text := err.Error()
	v.Ensures("the base message and the text of every error", text == base+": "+c28Text(m.Errors)(times*n))
	for i := 0; i < n; i++ {
		v.Ensures("every error as often as it was added", strings.Count(text, "<"+strconv.Itoa(i)+">") == times)
	}
}
