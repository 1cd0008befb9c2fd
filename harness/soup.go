package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// Hostile inputs: well-formed XML made of XSD tags in any nesting, mutated
// valid schemas, and file graphs.

var soupTags = strings.Fields(`schema element element element complexType complexType simpleType simpleType attribute attribute
 attributeGroup group sequence choice all extension restriction union list enumeration simpleContent complexContent
 annotation documentation appinfo include import redefine any anyAttribute minInclusive maxInclusive minExclusive maxExclusive
 pattern length minLength maxLength whiteSpace fractionDigits totalDigits notation key keyref unique selector field
 assert override alternative foo charData stack parse protoTree`)

var soupNames = strings.Fields(`A B C D a b c d T1 T2 G1 G2 AG e1 e2 type self string int date`)

func soupValue(r *rand.Rand) string {
	switch r.IntN(12) {
	case 0, 1, 2:
		return soupNames[r.IntN(len(soupNames))]
	case 3:
		return "xs:" + builtinNames()[r.IntN(len(builtinNames()))]
	case 4:
		return "x:" + soupNames[r.IntN(len(soupNames))]
	case 5:
		return []string{"", " ", ":", "::", "a:b:c", "x:", ":y", ".", "..", "-", "_", "a-b.c_d", "é", "日本", "\u00a0", "1", "0", "-1", "unbounded", "99999999999999999999999", "1e9", "0x10", "NaN"}[r.IntN(23)]
	case 6:
		return "unbounded"
	case 7:
		return fmt.Sprint(r.IntN(5))
	case 8:
		return "required"
	case 9:
		return strings.Join([]string{soupNames[r.IntN(len(soupNames))], "xs:int", soupNames[r.IntN(len(soupNames))]}, []string{" ", "  ", "\t", "\n"}[r.IntN(4)])
	case 10:
		return []string{"other.xsd", "missing.xsd", "", ".", "/", "sub/", "soup.xsd", "http://127.0.0.1:1/a.xsd", "urn:x", "http://www.w3.org/XML/1998/namespace", xsdNS}[r.IntN(11)]
	}
	return strings.Repeat([]string{"a", "Ab", ".", "-", ":", "é"}[r.IntN(6)], r.IntN(300))
}

var soupAttrs = strings.Fields(`name name name type type ref ref base base value maxOccurs maxOccurs minOccurs use itemType memberTypes schemaLocation namespace mixed abstract substitutionGroup default fixed form id targetNamespace unbounded processContents xml:lang x:foo xmlns:x`)

func soupNode(r *rand.Rand, depth int, budget *int) *Node {
	n := el(soupTags[r.IntN(len(soupTags))])
	seen := map[string]bool{}
	for i := r.IntN(4); i > 0; i-- {
		k := soupAttrs[r.IntN(len(soupAttrs))]
		if !seen[k] {
			seen[k] = true
			n.attr(k, soupValue(r))
		}
	}
	if r.IntN(10) == 0 {
		n.Text = []string{"text", "a < b", "  ", "*/ // \r\n x", "]]>"}[r.IntN(5)]
	}
	for depth > 0 && *budget > 0 && r.IntN(4) > 0 {
		*budget--
		n.add(soupNode(r, depth-1, budget))
	}
	if len(n.Kids) > 0 {
		n.Text = ""
	}
	return n
}

// soup is a document whose root is mostly schema.
func soup(r *rand.Rand) string {
	budget := 5 + r.IntN(60)
	root := el("schema").attr("xmlns:xs", xsdNS).attr("xmlns:x", "urn:x")
	if r.IntN(3) == 0 {
		root.attr("targetNamespace", "urn:x")
	}
	px := Prefixes{XS: "xs"}
	for budget > 0 {
		budget--
		root.add(soupNode(r, 1+r.IntN(8), &budget))
	}
	switch r.IntN(12) {
	case 0:
		root.Name = soupTags[r.IntN(len(soupTags))]
	case 1: // no namespace at all
		px.XS = ""
	}
	return (&Style{R: r, NoIndent: r.IntN(2) == 0, Comments: r.IntN(3) == 0, PIs: r.IntN(3) == 0}).write(px, root)
}

func allNodes(n *Node) (out []*Node) {
	out = append(out, n)
	for _, k := range n.Kids {
		out = append(out, allNodes(k)...)
	}
	return
}

func cloneNode(n *Node) *Node {
	m := *n
	m.Attrs = append([][2]string(nil), n.Attrs...)
	m.Kids = nil
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, cloneNode(k))
	}
	return &m
}

// mutateTree makes k structural edits to a schema document.
func mutateTree(r *rand.Rand, root *Node, k int) {
	for ; k > 0; k-- {
		all := allNodes(root)
		n := all[r.IntN(len(all))]
		switch r.IntN(9) {
		case 0: // drop a child
			if len(n.Kids) > 0 {
				i := r.IntN(len(n.Kids))
				n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
			}
		case 1: // duplicate a child
			if len(n.Kids) > 0 && len(all) < 400 {
				i := r.IntN(len(n.Kids))
				n.Kids = append(n.Kids, cloneNode(n.Kids[i]))
			}
		case 2: // rename
			n.Name = soupTags[r.IntN(len(soupTags))]
		case 3: // drop an attribute
			if len(n.Attrs) > 0 {
				i := r.IntN(len(n.Attrs))
				if !strings.HasPrefix(n.Attrs[i][0], "xmlns") {
					n.Attrs = append(n.Attrs[:i:i], n.Attrs[i+1:]...)
				}
			}
		case 4: // change an attribute
			if len(n.Attrs) > 0 {
				i := r.IntN(len(n.Attrs))
				if !strings.HasPrefix(n.Attrs[i][0], "xmlns") {
					n.Attrs[i][1] = soupValue(r)
				}
			}
		case 5: // wrap the children
			n.Kids = []*Node{{Name: soupTags[r.IntN(len(soupTags))], Kids: n.Kids}}
		case 6: // copy a subtree somewhere else
			m := all[r.IntN(len(all))]
			if len(all) < 400 {
				i := 0
				if len(n.Kids) > 0 {
					i = r.IntN(len(n.Kids))
				}
				n.Kids = append(n.Kids[:i:i], append([]*Node{cloneNode(m)}, n.Kids[i:]...)...)
				n.Text = ""
			}
		case 7: // refer to itself
			for i := range n.Attrs {
				if a := n.Attrs[i][0]; a == "type" || a == "base" || a == "ref" || a == "itemType" {
					for _, m := range all {
						for _, b := range m.Attrs {
							if b[0] == "name" && r.IntN(4) == 0 {
								n.Attrs[i][1] = b[1]
							}
						}
					}
				}
			}
		case 8: // unwrap
			if len(n.Kids) > 0 {
				i := r.IntN(len(n.Kids))
				kid := n.Kids[i]
				n.Kids = append(n.Kids[:i:i], append(append([]*Node(nil), kid.Kids...), n.Kids[i+1:]...)...)
			}
		}
	}
}

// mutateBytes corrupts a text.
func mutateBytes(r *rand.Rand, s string, k int) string {
	b := []byte(s)
	junk := []string{"<", ">", "&", "/", "\"", "'", "=", " ", "\x00", "\xff", "\xfe", "]]>", "<!--", "-->", "<![CDATA[", "<?x", "?>", "</", "/>", "&#0;", "&amp;", "<a>", "</a>", "<xs:element>", "\n"}
	for ; k > 0 && len(b) > 0; k-- {
		i := r.IntN(len(b))
		switch r.IntN(5) {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			j := min(len(b), i+1+r.IntN(6))
			b = append(b[:i:i], b[j:]...)
		case 2:
			b = append(b[:i:i], append([]byte(junk[r.IntN(len(junk))]), b[i:]...)...)
		case 3:
			j := min(len(b), i+1+r.IntN(40))
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 4:
			b = b[:i]
		}
	}
	return string(b)
}

func randomBytes(r *rand.Rand) string {
	b := make([]byte, r.IntN(200))
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	return []string{"", "\xef\xbb\xbf", "\xff\xfe", "<?xml version=\"1.0\" encoding=\"utf-16\"?>", "<xs:schema>", "<?xml version=\"1.0\" encoding=\"nonsense\"?><a/>", "<?xml version=\"1.1\"?><a/>"}[r.IntN(7)] + string(b)
}
