package main

// corrupt applies a few random byte-level edits.
func corrupt(r *Rng, s string) string {
	b := []byte(s)
	n := 1 + r.N(3)
	for i := 0; i < n; i++ {
		if len(b) == 0 {
			b = append(b, '{')
		}
		p := r.N(len(b))
		switch r.N(8) {
		case 0:
			b = b[:p]
		case 1:
			b = append(b[:p], b[p+1:]...)
		case 2:
			b[p] = "{}[]:,\"\\ tfn0-1.eE\x00\xff"[r.N(20)]
		case 3:
			c := "{}[]:,\"\\ tfn0-1.eE\x00\xff"[r.N(20)]
			b = append(b[:p], append([]byte{c}, b[p:]...)...)
		case 4:
			b[p] = byte(r.U64())
		case 5: // duplicate a chunk
			q := p + r.N(len(b)-p)
			b = append(b[:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		case 6: // drop a chunk
			q := p + r.N(len(b)-p)
			b = append(b[:p], b[q:]...)
		case 7:
			q := r.N(len(b))
			b[p], b[q] = b[q], b[p]
		}
	}
	return string(b)
}
