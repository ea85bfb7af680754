package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// words lists the spellings of a format; ok is false for an unknown format.
func boolWords(format string) (t, f []string, ok bool) {
	switch format {
	case "l":
		return []string{"true"}, []string{"false"}, true
	case "U":
		return []string{"TRUE"}, []string{"FALSE"}, true
	case "Cc":
		return []string{"True"}, []string{"False"}, true
	case "", "*":
		return []string{"true", "TRUE", "True"}, []string{"false", "FALSE", "False"}, true
	}
	return nil, nil, false
}

func refBool(t string, p int, format string) (val bool, want int) {
	tr, fa, _ := boolWords(format)
	for _, w := range tr {
		if hasAt(t, p, w) {
			return true, p + len(w)
		}
	}
	for _, w := range fa {
		if hasAt(t, p, w) {
			return false, p + len(w)
		}
	}
	return false, -1
}

// C09_readbool: texts of up to 8 bytes (thorough 9), every position, every format string of up to 3 bytes.
func C09_readbool() {
	t := text(vp.Bound(8, 9))
	s, p := at(t)
	format := text(3)
	v, err := s.ReadBool(format)
	val, want := refBool(t, p, format)
	checkStep(err == nil, pos(s), p, want, "ReadBool")
	if err == nil {
		vp.Assert(v == val, "ReadBool returns the value spelled")
	}
}

// C09_reader: the Bool reader with every documented format, bounds as above.
func C09_reader() {
	t := text(vp.Bound(8, 9))
	s, p := at(t)
	format := []string{"l", "U", "Cc", "*", ""}[vp.Choose(5)]
	r := tok.Bool(format)
	err := r.Read(s)
	val, want := refBool(t, p, format)
	checkStep(err == nil, pos(s), p, want, "Bool reader")
	if err == nil {
		vp.Assert(r.Value == val, "the Bool reader stores the value spelled")
	}
}
