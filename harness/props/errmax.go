package props

import "sync"

// The largest error seen per function, for the evidence.

var (
	errMu  sync.Mutex
	errTab = map[string]float64{}
)

func noteErr(name string, e float64) {
	errMu.Lock()
	if e > errTab[name] {
		errTab[name] = e
	}
	errMu.Unlock()
}

func errReport() map[string]float64 {
	errMu.Lock()
	defer errMu.Unlock()
	out := map[string]float64{}
	for k, v := range errTab {
		out[k] = v
	}
	return out
}
