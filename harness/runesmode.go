package main

func init() { modes["runes"] = runRunes }

// runRunes only writes the table of the code points in the jobs (and the
// texts the specification itself can make of them).
func runRunes(in, out string, skip int) {
	eachLine(in, func(b []byte) {
		var j struct {
			S []int `json:"s"`
		}
		mustJSON(b, &j)
		str(j.S)
	})
	newOutput(out).close()
	writeRunes(out + ".runes")
}
