package main

func init() {
	for _, p := range []string{"C04", "C06", "C07", "C08", "C09"} {
		p := p
		checks[p] = func(P *Program, r *Report) {
			c := NewStoreClient(P, p)
			c.rep[p] = r
			c.Run()
		}
	}
}
