package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"encoding/xml"
	"fmt"
	"hash/fnv"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/rt"
	simexec "verif.local/sim/shim/os/exec"
)

// Pkg describes one package file of a plan's universe.
type Pkg struct {
	Name string `json:"n"`
	Src  string `json:"s"`
	Ver  string `json:"v"`
	Rel  int    `json:"r"`
	Text int    `json:"t,omitempty"` // seed of the descriptive fields
	Bad  string `json:"bad,omitempty"`
	Tree []TF   `json:"tree,omitempty"` // install tree (delta scenarios)
	Dist string `json:"d,omitempty"`
	File string `json:"f,omitempty"` // the file's name, if not the usual one
}

// TF is one file of an install tree; an empty content is a directory.
type TF struct {
	P string `json:"p"`
	C string `json:"c"`
	L int    `json:"l,omitempty"` // 1 symbolic link to C, 2 hard link with content C
}

func (p *Pkg) distRel() string {
	if p.Dist != "" {
		return p.Dist
	}
	return "1"
}

// ID is the file name, which the daemon uses as the identity of the package.
func (p *Pkg) ID() string {
	if p.File != "" {
		return p.File
	}
	return fmt.Sprintf("%s-%s-%d-%s-x86_64.eopkg", strings.ReplaceAll(p.Name, "/", "_"), p.Ver, p.Rel, p.distRel())
}

// Dir is the directory below a repository (or the pool) in which the package is filed.
func (p *Pkg) Dir() string {
	n := strings.ToLower(p.Src)
	c := []rune(n)
	if strings.HasPrefix(n, "lib") && len(c) > 3 {
		return path.Join(string(c[:4]), n)
	}
	return path.Join(string(c[:1]), n)
}
func (p *Pkg) URI() string { return p.Dir() + "/" + p.ID() }

var textBits = []string{
	"A small editor", "für den täglichen Gebrauch", "日本語の説明文", "Здравствуй, мир", "with <angle> & \"quoted\" text", "naïve café", "ελληνικά",
	"ferry ™ symbol", "emoji 🙂 inside", "tab\tand  spaces", "plain words\n\nfollow here", "한국어 설명", "עברית", "100% safe; no tricks", "ligature ﬁ", "é",
}

func (p *Pkg) text(r *rt.Rand, n int) string {
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, textBits[r.Intn(len(textBits))])
	}
	return strings.Join(s, " ")
}

func xe(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// MetaXML is the metadata.xml of the package.
func (p *Pkg) MetaXML() string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d|%d", p.Name, p.Ver, p.Rel, p.Text)
	r := rt.NewRand(h.Sum64())
	var b strings.Builder
	src := func() string {
		s := fmt.Sprintf("<Source><Name>%s</Name>", xe(p.Src))
		if r.Intn(2) == 0 || p.Text%2 == 0 {
			s += "<Homepage>https://example.org/" + xe(p.Src) + "</Homepage>"
		}
		return s + "<Packager><Name>Jo Bödeker</Name><Email>jo@example.org</Email></Packager></Source>"
	}()
	b.WriteString("<PISI>\n" + src + "\n<Package>\n")
	switch p.Bad {
	case "noname":
	case "emptyname":
		b.WriteString("<Name></Name>")
	case "slashname":
		b.WriteString("<Name>../../" + xe(p.Name) + "</Name>")
	case "pipename":
		// the key of an entry may not start like this
		b.WriteString("<Name>|bucket|" + xe(p.Name) + "</Name>")
	default:
		fmt.Fprintf(&b, "<Name>%s</Name>\n", xe(p.Name))
	}
	langs := []string{"", "de", "ja", "en", "pt-br"}
	n := 1 + r.Intn(3)
	if p.Bad != "nosummary" {
		for i := 0; i < n; i++ {
			l := ""
			if langs[i] != "" {
				l = ` xml:lang="` + langs[i] + `"`
			}
			fmt.Fprintf(&b, "<Summary%s>%s</Summary>\n", l, xe(p.text(r, 1+r.Intn(3))))
		}
	}
	if p.Bad != "nodesc" {
		for i := 0; i < n; i++ {
			l := ""
			if langs[i] != "" {
				l = ` xml:lang="` + langs[i] + `"`
			}
			fmt.Fprintf(&b, "<Description%s>%s</Description>\n", l, xe(p.text(r, 2+r.Intn(40))))
		}
	}
	if r.Intn(3) == 0 {
		b.WriteString("<IsA>app:console</IsA>\n")
	}
	fmt.Fprintf(&b, "<PartOf>system.%s</PartOf>\n", []string{"base", "utils", "devel"}[r.Intn(3)])
	for i := 0; i <= r.Intn(2); i++ {
		fmt.Fprintf(&b, "<License>%s</License>\n", []string{"GPL-2.0-or-later", "MIT", "Apache-2.0"}[r.Intn(3)])
	}
	if r.Intn(2) == 0 {
		fmt.Fprintf(&b, "<RuntimeDependencies><Dependency releaseFrom=\"%d\">glibc</Dependency><Dependency version=\"1.%d\">zlib</Dependency>", 1+r.Intn(9), r.Intn(9))
		for i := 0; i < r.Intn(4); i++ {
			fmt.Fprintf(&b, "<Dependency %s=\"%d\">%s</Dependency>", []string{"releaseFrom", "releaseTo", "release", "versionFrom", "versionTo", "version"}[r.Intn(6)], 1+r.Intn(99), []string{"gtk+", "libé", "A&amp;B", "pkgconfig(x)"}[r.Intn(4)])
		}
		if r.Intn(4) == 0 {
			b.WriteString("<Dependency releaseFrom=\"2\" releaseTo=\"7\" versionFrom=\"1.0~rc\">both</Dependency><Dependency>plain</Dependency>")
		}
		b.WriteString("</RuntimeDependencies>\n")
	}
	if r.Intn(4) == 0 {
		b.WriteString("<Conflicts><Package>other-" + xe(p.Name) + "</Package>" + strings.Repeat("<Package>more</Package>", r.Intn(3)) + "</Conflicts>\n")
	}
	if r.Intn(4) == 0 {
		b.WriteString("<Replaces><Package>old-" + xe(p.Name) + "</Package></Replaces>\n")
	}
	if r.Intn(3) == 0 {
		b.WriteString("<Provides><COMAR script=\"service.py\">System.Service</COMAR><PkgConfig>" + xe(p.Name) + "</PkgConfig>")
		if r.Intn(2) == 0 {
			b.WriteString("<PkgConfig>" + xe(p.Name) + "-2.0</PkgConfig><PkgConfig32>" + xe(p.Name) + "</PkgConfig32><COMAR>System.Package</COMAR>")
		}
		b.WriteString("</Provides>\n")
	}
	switch p.Bad {
	case "nohistory":
	case "emptyhistory":
		b.WriteString("<History></History>")
	default:
		b.WriteString("<History>\n")
		for i := 0; i < 1+r.Intn(3) && p.Rel-i > 0; i++ {
			t := ""
			if i == 0 && r.Intn(3) == 0 {
				t = ` type="security"`
			}
			v := p.Ver
			if i > 0 {
				v = "0." + strconv.Itoa(p.Rel-i)
			}
			req := ""
			if r.Intn(5) == 0 {
				req = "<Requires><Action package=\"linux-current\">systemRestart</Action><Action>reverseDependencyUpdate</Action></Requires>"
			}
			fmt.Fprintf(&b, "<Update release=\"%d\"%s><Date>2026-0%d-11</Date><Version>%s</Version><Comment>%s</Comment><Name>Zoë</Name><Email>z@example.org</Email>%s</Update>\n",
				p.Rel-i, t, 1+r.Intn(9), v, xe(p.text(r, 1+r.Intn(4))), req)
		}
		b.WriteString("</History>\n")
	}
	fmt.Fprintf(&b, "<BuildHost>build%d</BuildHost><Distribution>Solus</Distribution><DistributionRelease>%s</DistributionRelease><Architecture>x86_64</Architecture><InstalledSize>%d</InstalledSize><PackageFormat>1.2</PackageFormat>\n",
		r.Intn(4), p.distRel(), 1000+r.Intn(100000))
	b.WriteString("</Package>\n</PISI>\n")
	s := b.String()
	switch p.Bad {
	case "nosource":
		s = strings.Replace(s, src, "", 1)
		return s
	case "truncmeta":
		return s[:len(s)/2]
	case "notxml":
		return "this is not XML at all"
	case "emptymeta":
		return ""
	}
	// The package's own copy of the source, which the index carries.
	return strings.Replace(s, "</Package>\n</PISI>", src+"</Package>\n</PISI>", 1)
}

func sha1hex(b []byte) string   { s := sha1.Sum(b); return hex.EncodeToString(s[:]) }
func sha256hex(b []byte) string { s := sha256.Sum256(b); return hex.EncodeToString(s[:]) }

// FilesXML lists the install tree.
func (p *Pkg) FilesXML() string {
	var b strings.Builder
	b.WriteString("<Files>\n")
	for _, f := range p.Tree {
		h := ""
		if f.C != "" {
			h = "<Hash>" + sha1hex([]byte(f.C)) + "</Hash>"
		}
		fmt.Fprintf(&b, "<File><Path>%s</Path><Type>data</Type><Size>%d</Size><Uid>0</Uid><Gid>0</Gid><Mode>0644</Mode>%s</File>\n", xe(f.P), len(f.C), h)
	}
	b.WriteString("</Files>\n")
	return b.String()
}

func (p *Pkg) installTar() []byte {
	var t bytes.Buffer
	tw := tar.NewWriter(&t)
	for _, f := range p.Tree {
		h := &tar.Header{Name: f.P, Mode: 0o644, Size: int64(len(f.C)), Typeflag: tar.TypeReg, ModTime: time.Unix(1e9, 0)}
		switch k := len(f.P) + int(f.P[len(f.P)-1]); k % 7 {
		case 1:
			h.Mode = 0o755
		case 2:
			h.Mode, h.Gid = 0o4755, k
		case 3:
			h.ModTime = time.Unix(1e9+int64(k), 0)
		}
		switch {
		case f.C == "":
			h.Typeflag, h.Name, h.Mode = tar.TypeDir, f.P+"/", 0o755
		case f.L == 1:
			h.Typeflag, h.Linkname, h.Size = tar.TypeSymlink, f.C, 0
		case f.L == 2:
			h.Typeflag, h.Linkname, h.Size = tar.TypeLink, "usr/lib/first", 0
		}
		tw.WriteHeader(h)
		if h.Size > 0 {
			tw.Write([]byte(f.C))
		}
	}
	tw.Close()
	return t.Bytes()
}

var pkgCache = map[string][]byte{}

// Bytes builds the package file.
func (p *Pkg) Bytes() []byte {
	key := fmt.Sprintf("%+v", *p)
	if b, ok := pkgCache[key]; ok {
		return b
	}
	var z bytes.Buffer
	switch p.Bad {
	case "empty":
		return nil
	case "notzip":
		return []byte("PK but not really a zip file " + p.Name)
	}
	zw := zip.NewWriter(&z)
	add := func(name string, b []byte) {
		w, _ := zw.CreateHeader(&zip.FileHeader{Name: name, Method: zip.Deflate, Modified: time.Unix(1e9, 0).UTC()})
		w.Write(b)
	}
	if p.Bad != "nometa" {
		add("metadata.xml", []byte(p.MetaXML()))
	}
	if p.Bad != "nofiles" {
		f := p.FilesXML()
		if p.Bad == "badfiles" {
			f = f[:len(f)/2]
		}
		add("files.xml", []byte(f))
	}
	// the members come in any order
	if p.Text%3 != 1 {
		add("comar/package.py", []byte("# "+p.Name))
	}
	if p.Bad != "noinstall" {
		add("install.tar.xz", simexec.Pack("XZ", p.installTar()))
	}
	if p.Text%3 == 1 {
		add("comar/package.py", []byte("# "+p.Name))
	}
	zw.Close()
	b := z.Bytes()
	if p.Bad == "trunczip" {
		b = b[:len(b)*2/3]
	}
	if len(pkgCache) > 4000 {
		pkgCache = map[string][]byte{}
	}
	pkgCache[key] = b
	return b
}

// --- generic XML trees for comparing what the index says with what the package said ---

type node struct {
	name  string
	attrs []string
	text  string
	kids  []*node
}

func parseXML(b []byte) (*node, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	root := &node{}
	st := []*node{root}
	for {
		t, err := d.Token()
		if err != nil {
			if len(st) == 1 && len(root.kids) == 1 {
				return root.kids[0], nil
			}
			return nil, fmt.Errorf("incomplete document: %v", err)
		}
		switch t := t.(type) {
		case xml.StartElement:
			n := &node{name: t.Name.Local}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				n.attrs = append(n.attrs, a.Name.Local+"="+a.Value)
			}
			sort.Strings(n.attrs)
			p := st[len(st)-1]
			p.kids = append(p.kids, n)
			st = append(st, n)
		case xml.EndElement:
			st = st[:len(st)-1]
		case xml.CharData:
			st[len(st)-1].text += string(t)
		}
	}
}

// canon is a comparable form: texts trimmed, empty leaves dropped, numeric character
// references that were written inside CDATA decoded (ferryd escapes symbols on purpose).
func (n *node) canon(sorted bool) string {
	var kids []string
	for _, k := range n.kids {
		if c := k.canon(sorted); c != "" {
			kids = append(kids, c)
		}
	}
	t := normText(n.text)
	if len(kids) == 0 && t == "" && len(n.attrs) == 0 {
		return ""
	}
	if sorted {
		// Elements of different names may be regrouped; those of the same name keep their order.
		sort.SliceStable(kids, func(i, j int) bool { return kidName(kids[i]) < kidName(kids[j]) })
	}
	return n.name + "[" + strings.Join(n.attrs, ",") + "]{" + t + strings.Join(kids, "") + "}"
}
func kidName(s string) string { return s[:strings.IndexByte(s, '[')] }

func normText(s string) string {
	for {
		i := strings.Index(s, "&#x")
		if i < 0 {
			break
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 {
			break
		}
		v, err := strconv.ParseUint(s[i+3:i+j], 16, 32)
		if err != nil {
			break
		}
		s = s[:i] + string(rune(v)) + s[i+j+1:]
	}
	return strings.TrimSpace(s)
}

func (n *node) kid(name string) *node {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}
func (n *node) all(name string) (out []*node) {
	for _, k := range n.kids {
		if k.name == name {
			out = append(out, k)
		}
	}
	return
}
func (n *node) val(name string) string {
	if k := n.kid(name); k != nil {
		return strings.TrimSpace(k.text)
	}
	return ""
}

var derived = map[string]bool{"PackageSize": true, "PackageHash": true, "PackageURI": true, "DeltaPackages": true}

// metaCanon is the canonical form of a <Package> element without the fields the daemon derives.
func metaCanon(p *node, fixLang bool) string {
	c := &node{name: "Package"}
	seen := map[string]bool{}
	for _, k := range p.kids {
		if derived[k.name] {
			continue
		}
		if fixLang && (k.name == "Summary" || k.name == "Description") && !seen[k.name] {
			seen[k.name] = true
			if len(k.attrs) == 0 {
				k = &node{name: k.name, attrs: []string{"lang=en"}, text: k.text, kids: k.kids}
			}
		}
		c.kids = append(c.kids, k)
	}
	return c.canon(true)
}

var metaCache = map[string]string{}

// WantMeta is the canonical metadata the index must carry for the package.
func (p *Pkg) WantMeta() string {
	key := fmt.Sprintf("%+v", *p)
	if s, ok := metaCache[key]; ok {
		return s
	}
	root, err := parseXML([]byte(p.MetaXML()))
	if err != nil {
		return "unparsable: " + err.Error()
	}
	s := metaCanon(root.kid("Package"), true)
	if len(metaCache) > 4000 {
		metaCache = map[string]string{}
	}
	metaCache[key] = s
	return s
}
