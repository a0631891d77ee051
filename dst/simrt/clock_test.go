package simrt

import (
	"testing"
	"testing/synctest"
	"time"
)

func TestWall(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		k := New(Sched{Kind: "seq"}, 1000)
		active = k
		defer func() { active = nil }()
		a := TimeNow()
		if !a.Equal(time.Now()) || a.Round(0).Format(time.RFC3339Nano) != time.Now().Format(time.RFC3339Nano) {
			t.Fatal(a, time.Now())
		}
		time.Sleep(1500 * time.Millisecond)
		for _, d := range []int64{0, -3600, 86400 * 365 * 40, -86400 * 365 * 60} {
			k.SetWall(d)
			b := TimeNow()
			if b.Sub(a) != 1500*time.Millisecond {
				t.Fatal(b.Sub(a))
			}
			if w := b.Round(0).Sub(a.Round(0)); w != 1500*time.Millisecond+time.Duration(k.wall)*time.Second {
				t.Fatal(w, k.wall)
			}
			if u := b.Unix() - a.Unix(); u < k.wall+1 || u > k.wall+2 {
				t.Fatal(u)
			}
		}
	})
}
