package props

import (
	"strconv"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// anyTree is an arbitrary tree of at most *left further nodes.
func anyTree(left *int, mk func() tok.Segment) *tok.Node {
	n := &tok.Node{Segment: mk()}
	for *left > 0 && vp.Choose(2) == 1 {
		*left--
		n.Nodes = append(n.Nodes, anyTree(left, mk))
	}
	return n
}

type row struct {
	depth int
	seg   tok.Segment
}

func rows(n *tok.Node, depth int, res *[]row) {
	*res = append(*res, row{depth, n.Segment})
	for _, c := range n.Nodes {
		rows(c, depth+1, res)
	}
}

// C21_equal: Equal of any two trees with up to 5 (6) nodes each, tokens over all non-negative markers and one-byte infos.
func C21_equal() {
	mk := func() tok.Segment { return anySpan(vp.Str(1)).seg }
	l1, l2 := vp.Bound(4, 5), vp.Bound(4, 5)
	a, b := &tok.Graph{Root: anyTree(&l1, mk)}, &tok.Graph{Root: anyTree(&l2, mk)}
	ra, rb := []row{}, []row{}
	rows(a.Root, 0, &ra)
	rows(b.Root, 0, &rb)
	same := len(ra) == len(rb)
	if same {
		for i := range ra {
			if ra[i] != rb[i] {
				same = false
			}
		}
	}
	vp.Assert(a.Equal(b) == same, "Equal exactly for the same shape with the same segments")
	vp.Assert(b.Equal(a) == same, "Equal is symmetric")
	vp.Assert(a.Equal(a), "Equal is reflexive")
}

// C21_leafs: Leafs of every tree with up to 8 (9) nodes.
func C21_leafs() {
	left := vp.Bound(7, 8)
	g := &tok.Graph{Root: anyTree(&left, func() tok.Segment { return anySpan(vp.Str(1)).seg })}
	rs := []row{}
	rows(g.Root, 0, &rs)
	want := []tok.Segment{}
	for i, r := range rs {
		if i+1 == len(rs) || rs[i+1].depth <= r.depth {
			want = append(want, r.seg)
		}
	}
	vp.Assert(sameSegs(g.Leafs(), want), "Leafs are the nodes without children from left to right")
	again := []row{}
	rows(g.Root, 0, &again)
	vp.Assert(len(again) == len(rs), "Leafs does not change the graph")
}

// C21_flame: FlameStack of every tree with up to 6 (7) nodes, one-letter infos and tokens between 0 and 120.
func C21_flame() {
	left := vp.Bound(5, 6)
	i := 0
	ends := []int{120, 12, 9, 100, 7, 1}
	g := &tok.Graph{Root: anyTree(&left, func() tok.Segment {
		c := vp.Byte()
		vp.Assume(c > ' ' && c < 0x7F && c != ';')
		x := seg(string(rune(c)), i, i+ends[i])
		i++
		return x
	})}
	out := g.FlameStack()
	vp.Assert(out == flame(g.Root, "", 1), "a path element is the place among the siblings, a dot and the segment")
	vp.Assert(strings.HasSuffix(out, "\n"), "every line ends with a newline")
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	rs := []row{}
	rows(g.Root, 0, &rs)
	vp.Assert(len(lines) == len(rs), "one line per node")
	if len(lines) != len(rs) {
		return
	}
	path := []tok.Segment{}
	for k, l := range lines {
		r := rs[k]
		path = append(path[:r.depth], r.seg)
		j := strings.LastIndex(l, " ")
		vp.Assert(j >= 0, "a line has a path and a count")
		if j < 0 {
			return
		}
		vp.Assert(l[j+1:] == strconv.Itoa(r.seg.Len()), "the count is the length of the node")
		parts := strings.Split(l[:j], ";")
		vp.Assert(len(parts) == r.depth+1, "the path has the depth of the node")
		if len(parts) != r.depth+1 {
			return
		}
		for m, p := range parts {
			vp.Assert(strings.HasSuffix(p, path[m].Info+"["+strconv.Itoa(m0(path[m]))+"-"+strconv.Itoa(m0(path[m])+path[m].Len())+")"), "the path names the ancestors")
		}
	}
}

// flame is the expected stack of a node that is the i-th child of its parent.
func flame(n *tok.Node, path string, i int) string {
	a := m0(n.Segment)
	path += strconv.Itoa(i) + "." + n.Info + "[" + strconv.Itoa(a) + "-" + strconv.Itoa(a+n.Len()) + ")"
	out := path + " " + strconv.Itoa(n.Len()) + "\n"
	for k, c := range n.Nodes {
		out += flame(c, path+";", k+1)
	}
	return out
}

// m0 is the start of a segment.
func m0(g tok.Segment) int {
	for a := 0; ; a++ {
		if g.Token == mkToken(a, a+g.Len()) {
			return a
		}
	}
}

// C21_wide: Leafs, Equal and FlameStack of chains of 12 and 40 nodes and of nodes with 15, 70 and 270 children; Equal against a copy in which one node's segment is arbitrary or one node is missing.
func C21_wide() {
	mk := func(i int) *tok.Node {
		return &tok.Node{Segment: seg(rep("abcdefghijklmnopqrstuvwxyz", 11)[i:i+1], i%45, i%45+3)}
	}
	root := mk(0)
	deep := vp.Choose(2) == 1
	last := root
	n := pickInt(16, 71, 271)
	if deep {
		n = pickInt(13, 41)
	}
	for i := 1; i < n; i++ {
		x := mk(i)
		last.Nodes = append(last.Nodes, x)
		if deep {
			last = x
		}
	}
	g := &tok.Graph{Root: root}
	h := &tok.Graph{Root: copyNode(root)}
	vp.Assert(g.Equal(h) && h.Equal(g), "Equal for copies")
	want := []tok.Segment{}
	if deep {
		want = append(want, last.Segment)
	} else {
		for _, c := range root.Nodes {
			want = append(want, c.Segment)
		}
	}
	vp.Assert(sameSegs(g.Leafs(), want), "Leafs are the nodes without children from left to right")
	vp.Assert(strings.Count(g.FlameStack(), "\n") == n, "one line per node")
	vp.Assert(g.FlameStack() == flame(root, "", 1), "a path element is the place among the siblings, a dot and the segment")
	k := pickInt(1, n/2, n-1)
	x := h.Root
	if deep {
		for i := 0; i < k; i++ {
			x = x.Nodes[0]
		}
	} else {
		x = x.Nodes[k-1]
	}
	was := x.Segment
	x.Segment = anySpan(text(1)).seg
	vp.Assert(g.Equal(h) == (x.Segment == was), "Equal exactly for the same segments")
	x.Segment = was
	x.Nodes = append(x.Nodes, mk(1))
	vp.Assert(!g.Equal(h) && !h.Equal(g), "not Equal with one node more")
}
