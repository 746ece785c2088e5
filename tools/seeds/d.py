# choosing among routes: C40, C41, C51
PICK='''
func pick(t *testing.T, ci bool, u string, pats ...string) (string, *Pattern, *MatchingContext) {
	m := NewMatcher(ci)
	for _, p := range pats {
		x, err := ParsePattern(p, ci)
		if err != nil {
			t.Fatal(err)
		}
		if err := m.AddPattern(x); err != nil {
			t.Fatal(err)
		}
	}
	l := &url.URL{Path: u}
	mc := &MatchingContext{R: &http.Request{URL: l}, PathSegments: make([]UrlSegment, MaxPathSegments)}
	ParseURLPath(l, mc)
	done := make(chan *Pattern, 1)
	go func() { done <- m.Match(u, mc) }()
	select {
	case p := <-done:
		if p == nil {
			return "none", nil, mc
		}
		return p.RawValue, p, mc
	case <-time.After(20 * time.Second):
		t.Fatal("no answer")
	}
	return "", nil, nil
}
func want(t *testing.T, ci bool, u, w string, pats ...string) {
	if got, _, _ := pick(t, ci, u, pats...); got != w {
		t.Fatalf("%s: got %s, want %s of %v", u, got, w, pats)
	}
}
'''
PI="net/http net/url testing time"
def D(id, prop, edits, body, needs, breaks, imp=""):
    S(id, prop, "router/path", edits, T("path", PI+imp, PICK+body), needs, breaks)
def B(*w): return "func TestDemo(t *testing.T) {\n"+"\n".join("\twant(t, %s)"%x for x in w)+"\n}\n"
EN="router/path/encode.go"
D("greedy-leaf-at-once","C40",[(MT,"				if greedyChildrenLen == 0 && childNode.isLeaf() {","				if childNode.isLeaf() && (greedyChildrenLen == 0 || urlSegmentIndex == urlLen-1) {")],
  B('false, "/x/b", "/x/**/b", "/x/**", "/x/**/b"'),"a ** at the last segment of the path, which ends one route and is followed by more in another","the ** takes the rest although a more specific route matches")
D("greedy-prefers-end","C40",[(MT,"			if urlSegmentIndex == urlLen-1 && currentNode.isLeaf() {","			if urlSegmentIndex >= urlLen-1 && currentNode.isLeaf() {")],
  B('false, "/b/c", "/**/b/c", "/**", "/**/b/c"'),"a leaf ** first in the pattern whose continuation matches the first segment of the path","the ** takes the rest although a more specific route matches")
D("inner-nodes-need-two","C41",[(MT,"	return urlPathLen <= n.maxMatchableSegments\n","	return urlPathLen <= n.maxMatchableSegments && (urlPathLen > 1 || n.isLeaf())\n")],
  B('false, "/x/b", "/x/**/b", "/x/**/b"'),"a ** that takes no segment before the last one","the route is not found")
D("choice-counter-wraps","C41",[(MT,"	currentNodeChildren uint16\n","	currentNodeChildren uint8\n"),(MT,"ci := nodeStack[treeDepth].currentNodeChildren; ci","ci := uint16(nodeStack[treeDepth].currentNodeChildren); ci"),(MT,"								currentNodeChildren: ci,","								currentNodeChildren: uint8(ci),"),(MT,"					currentNodeChildren: ci + 1,","					currentNodeChildren: uint8(ci + 1),")],
'''func TestDemo(t *testing.T) {
	var ps []string
	for i := 0; i < 255; i++ {
		ps = append(ps, fmt.Sprintf("/a%03d/x", i))
	}
	ps = append(ps, "/b/x", "/{v}/y")
	want(t, false, "/b/y", "/{v}/y", ps...)
}
''',"more than 255 routes beside each other","the choice after the 256th is tried for ever"," fmt")
D("children-counted-in-a-byte","C41",[(MT,"		childrenLen := uint16(len(children))","		childrenLen := uint16(uint8(len(children)))")],
'''func TestDemo(t *testing.T) {
	var ps []string
	for i := 0; i < 256; i++ {
		ps = append(ps, fmt.Sprintf("/a%03d/x", i))
	}
	want(t, false, "/a200/x", "/a200/x", ps...)
}
''',"256 routes beside each other","none of them is found"," fmt")
D("one-case-tree","C51",[(MT,"					if m.caseInsensitive {\n						hasSameVal = strings.EqualFold(segment.val, child.segment.val)\n					} else {\n						hasSameVal = segment.val == child.segment.val\n					}\n","					hasSameVal = strings.EqualFold(segment.val, child.segment.val)\n")],
  B('false, "/A/y", "none", "/A/x", "/a/y"'),"two routes of a case-sensitive matcher that differ in letter case","a path is routed to a pattern with other letters")
D("wildcards-alike","C51",[(MT,"					child.segment.matchType == MatchTypeMultipleSegments {\n					hasSameVal = true","					child.segment.matchType == MatchTypeMultipleSegments ||\n					(child.segment.matchType == MatchTypeRegex && len(child.segment.val) == len(segment.val) && child.segment.val[0] == '*' && segment.val[0] == '*') {\n					hasSameVal = true")],
  B('false, "/ab/y", "none", "/*b/x", "/*c/y"'),"two routes whose texts with wildcards have the same length","a path is routed to a pattern whose wildcards it does not match")
D("matched-pattern-once","C51",[(MT,"					if childNode.isLeaf() {\n						mc.matchedPattern = childNode.pattern\n","					if childNode.isLeaf() {\n						if mc.matchedPattern == nil {\n							mc.matchedPattern = childNode.pattern\n						}\n")],
'''func TestDemo(t *testing.T) {
	_, p, mc := pick(t, false, "/a", "/a")
	if mc.matchedPattern != p {
		t.Fatal("not recorded")
	}
	m := NewMatcher(false)
	q, _ := ParsePattern("/{v}", false)
	if err := m.AddPattern(q); err != nil {
		t.Fatal(err)
	}
	if m.Match("/a", mc) != q || mc.matchedPattern != q {
		t.Fatal("the context records another pattern")
	}
}
''',"a matching context that is matched twice","the context records another pattern than the one returned")
D("exact-text-first","C40",[(MT,"	trieRoot        *node\n}","	trieRoot        *node\n	exact           map[string]*Pattern\n}"),(MT,"		trieRoot:        &node{},\n","		trieRoot:        &node{},\n		exact:           map[string]*Pattern{},\n"),
(MT,"				currentNode.pattern = pattern\n				inserted = true\n			}\n		}\n	}\n\n	if !inserted && currentNode.isLeaf() {\n		return errors.New(\"duplicated pattern detected: '\" + pattern.String() + \"'\")\n	}\n","				currentNode.pattern = pattern\n				inserted = true\n			}\n		}\n	}\n\n	if !inserted && currentNode.isLeaf() {\n		return errors.New(\"duplicated pattern detected: '\" + pattern.String() + \"'\")\n	}\n	if pattern.captureVarsLen == 0 && !pattern.isGreedy() {\n		m.exact[pattern.RawValue] = pattern\n	}\n"),
(MT,"	var treeDepth int\n	urlLen := uint8(len(mc.PathSegments))\n","	if p := m.exact[urlPath]; p != nil {\n		for i, s := range p.segments {\n			mc.PathSegments[i].matchType = s.matchType\n		}\n		mc.matchedPattern = p\n		return p\n	}\n	var treeDepth int\n	urlLen := uint8(len(mc.PathSegments))\n")],
  B('false, "/a*", "/{v:^a.$}", "/{v:^a.$}", "/a*"'),"a request path that is spelled as a route with wildcards","a text with wildcards is preferred to a constrained variable")
