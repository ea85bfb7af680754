package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

func copyNode(n *tok.Node) *tok.Node {
	c := &tok.Node{Segment: n.Segment}
	for _, x := range n.Nodes {
		c.Nodes = append(c.Nodes, copyNode(x))
	}
	return c
}

func sameNode(a, b *tok.Node) bool {
	if a.Segment != b.Segment || len(a.Nodes) != len(b.Nodes) {
		return false
	}
	for i := range a.Nodes {
		if !sameNode(a.Nodes[i], b.Nodes[i]) {
			return false
		}
	}
	return true
}

// place is a node with the infos of its ancestors.
type place struct {
	n  *tok.Node
	up []string
}

func walk(n *tok.Node, up []string, res *[]place) {
	for _, c := range n.Nodes {
		*res = append(*res, place{c, up})
		walk(c, append(append([]string{}, up...), c.Info), res)
	}
}

func checkTree(n *tok.Node) {
	for i, c := range n.Nodes {
		vp.Assert(n.Covers(c.Token), "children lie inside their node")
		if i > 0 {
			vp.Assert(n.Nodes[i-1].Before(c.Token), "children stand from left to right without overlap")
		}
		checkTree(c)
	}
}

func checkGraph(g *tok.Graph, acc []span) {
	checkTree(g.Root)
	ps := []place{}
	walk(g.Root, nil, &ps)
	vp.Assert(len(ps) == len(acc), "the graph has one node per accepted segment")
	for _, x := range acc {
		found := -1
		for i, p := range ps {
			if p.n.Info == x.seg.Info {
				found = i
			}
		}
		vp.Assert(found >= 0, "every accepted segment is in the graph")
		if found < 0 {
			continue
		}
		vp.Assert(ps[found].n.Segment == x.seg, "accepted segments keep their token")
		for _, y := range acc {
			if x.a < x.b && y.covers(x) && !y.same(x) {
				vp.Assert(position(ps[found].up, y.seg.Info) >= 0, "a segment hangs below everything that covers it")
			}
		}
	}
}

// history appends n arbitrary segments and checks the graph after each.
func history(n int, next func(i int) span) {
	g := tok.NewGraph("root")
	acc := []span{}
	for i := 0; i < n; i++ {
		x := next(i)
		before := copyNode(g.Root)
		clash := false
		for _, y := range acc {
			if x.clashes(y) {
				clash = true
			}
		}
		h, ok := g.Append(x.seg)
		vp.Assert(h == g, "Append returns the graph")
		vp.Assert(ok == !clash, "refused exactly if it clashes with an accepted segment")
		if ok {
			acc = append(acc, x)
		} else {
			vp.Assert(sameNode(g.Root, before), "a refused segment leaves the graph as it was")
		}
		checkGraph(g, acc)
	}
}

// C20_history: every sequence of 3 (4) segments over all non-negative markers, clashing, empty and equal ones included.
func C20_history() {
	n := vp.Bound(3, 4)
	history(n, func(i int) span { return anySpan("abcdef"[i : i+1]) })
}

// C20_fourth: a segment of any extent appended to graphs made of any three segments taken from [0,2) [2,4) [1,2) [3,4) [0,4) in any order; the last one has arbitrary markers.
func C20_fourth() {
	pool := [][2]int{{0, 2}, {2, 4}, {1, 2}, {3, 4}, {0, 4}}
	n := vp.Bound(4, 5)
	used := make([]bool, len(pool))
	history(n, func(i int) span {
		if i == n-1 {
			return anySpan("z")
		}
		k := vp.Choose(len(pool))
		vp.Assume(!used[k])
		used[k] = true
		a, b := pool[k][0], pool[k][1]
		return span{seg("abcdef"[i:i+1], a, b), a, b}
	})
}

// C20_build: BuildGraph is Append in sequence; 3 segments over all non-negative markers.
func C20_build() {
	spans := tile(3)
	g := tok.NewGraph("root")
	for _, x := range spans {
		g.Append(x.seg)
	}
	h := tok.BuildGraph("root", segsOf(spans))
	vp.Assert(sameNode(g.Root, h.Root), "BuildGraph appends the segments one after the other")
}

// C20_many: 12 and 40 segments side by side or nested within one another, appended in ascending or descending order, then an arbitrary one (after 40: one of 80 at the front, in the middle, at the end and behind).
func C20_many() {
	n := pickInt(12, 40)
	shape, desc := vp.Choose(3), vp.Choose(2) == 1
	g := tok.NewGraph("root")
	acc := []span{}
	for i := 0; i < n; i++ {
		k := i
		if desc {
			k = n - 1 - i
		}
		a, b := 3*k, 3*k+2
		if shape == 1 {
			a, b = k, 300-k
		}
		if shape == 2 {
			a, b = 4*(k/2)+k%2, 4*(k/2)+3
		}
		x := span{seg("abcdefghijklmnopqrstuvwxyABCDEFGHIJKLMNOPQRSTUVWXYZ"[k:k+1], a, b), a, b}
		_, ok := g.Append(x.seg)
		vp.Assert(ok, "a segment that clashes with none is accepted")
		acc = append(acc, x)
	}
	x := anySpan("z")
	if n > 12 {
		a := pickInt(0, 3*(n/2), 3*n-5, 240) + vp.Choose(4)
		b := a + pickInt(0, 1, 2, 5, 100)
		x = span{seg("z", a, b), a, b}
	}
	before := copyNode(g.Root)
	clash := false
	for _, y := range acc {
		if x.clashes(y) {
			clash = true
		}
	}
	_, ok := g.Append(x.seg)
	vp.Assert(ok == !clash, "refused exactly if it clashes with an accepted segment")
	if ok {
		acc = append(acc, x)
	} else {
		vp.Assert(sameNode(g.Root, before), "a refused segment leaves the graph as it was")
	}
	checkGraph(g, acc)
}
