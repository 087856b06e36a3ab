package generate

import (
	"time"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vMillis are the whole milliseconds since the epoch of a time of sec seconds and nsec nanoseconds, rounded down, and
// whether the time lies on a whole millisecond.
func vMillis(sec, nsec int64) (int64, bool) {
	return sec*1000 + nsec/1000000, nsec%1000000 == 0
}

// vSec bounds the seconds: years 1 to 9999, every time that JSON can write.
func vSec() int64 {
	return int64(sym.Int("sec", -62135596800, 253402300799))
}

// vClose accepts the millisecond of a time; between two milliseconds either neighbour.
func vClose(got, sec, nsec int64) bool {
	down, whole := vMillis(sec, nsec)
	return sym.Or(got == down, sym.And(sym.Not(whole), got == down+1))
}

// Verif_C30_time: an Avro timestamp is the number of milliseconds since 1970-01-01T00:00:00Z of the time it was made from.
//
// Bounds: every second of the years 1 to 9999 and every nanosecond; UTC and one zone of any whole-minute offset.
func Verif_C30_time() {
	sec, nsec := vSec(), int64(sym.Int("nsec", 0, 999999999))
	t := time.Unix(sec, nsec)
	if sym.Choose("utc", 2) == 1 {
		t = t.UTC()
	}
	got := AvroTime(t)
	sym.Assert(vClose(got, sec, nsec), "an Avro timestamp is not the millisecond of its time")
	gotp := AvroOptionalTime(&t)
	sym.Assert(gotp == got, "the Avro timestamp of an optional time differs from that of the time")
	sym.Reach("a time")
}

// Verif_C30_slices: arrays of times keep their length and their order; arrays of optional times leave only the missing
// ones out.
//
// Bounds: three times, each missing or not, in the years 1 to 9999.
func Verif_C30_slices() {
	n := sym.Choose("n", 4)
	var ts []time.Time
	var ps []*time.Time
	var secs []int64
	for i := 0; i < n; i++ {
		s := vSec()
		t := time.Unix(s, 0)
		ts = append(ts, t)
		secs = append(secs, s)
		ps = append(ps, &t)
	}
	got := AvroTimeSlice(ts)
	sym.Assert(len(got) == n, "an array of times changes its length")
	for i := range got {
		sym.Assert(got[i] == secs[i]*1000, "an array of times holds a wrong timestamp")
	}
	var want []int64
	for i := range ps {
		if sym.Choose("missing", 2) == 1 {
			ps[i] = nil
		} else {
			want = append(want, secs[i]*1000)
		}
	}
	opt := AvroOptionalTimeSlice(ps)
	sym.Assert(len(opt) == len(want), "an array of optional times leaves out a time that is present, or keeps a missing one")
	for i := range opt {
		sym.Assert(opt[i] == want[i], "an array of optional times holds a wrong timestamp")
	}
	sym.Assert(AvroOptionalTime(nil) == 0, "a missing time has a timestamp other than zero")
	sym.Reach("times")
}
