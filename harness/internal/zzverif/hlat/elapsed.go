package hlat

import (
	"time"

	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// the time since any second of the past is in whole milliseconds
func VH_P36_Elapsed() {
	s := nd.Int64("seconds", 0, 100*365*24*3600)
	x := Sample{Ms: dtime.ElapsedTime(nd.Time(dtime.Now().Unix()-s, 0))}
	x.Took(time.Duration(s) * time.Second)
	nd.Cover("end")
}
