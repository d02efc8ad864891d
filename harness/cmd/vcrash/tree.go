//go:build vsched

package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/hound-search/hound/index"

	"hv/bx"
)

type entry struct {
	name, text string
	kind       byte // 0 file, d directory, l link
}

func treeDir(trees, url string, rev int) string {
	h := sha1.Sum([]byte(url))
	return filepath.Join(trees, hex.EncodeToString(h[:4]), strconv.Itoa(rev))
}

func writeTree(dir string, es []entry) {
	bx.Must(os.MkdirAll(dir, 0755))
	for _, e := range es {
		p := filepath.Join(dir, e.name)
		switch e.kind {
		case 'd':
			bx.Must(os.MkdirAll(p, 0755))
		case 'l':
			bx.Must(os.Symlink(e.text, p))
		default:
			bx.Must(os.MkdirAll(filepath.Dir(p), 0755))
			bx.Must(os.WriteFile(p, []byte(e.text), 0644))
		}
	}
}

// copyTree copies files, directories and links.
func copyTree(dst, src string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		switch {
		case d.IsDir():
			return os.MkdirAll(to, 0755)
		case d.Type()&fs.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			if _, err := os.Lstat(to); err == nil {
				os.Remove(to)
			}
			return os.Symlink(l, to)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0600)
	})
}

// noise is text over few letters that compresses badly and has few trigrams.
func noise(n int) string {
	var sb strings.Builder
	x := uint32(2463534242)
	for sb.Len() < n {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		sb.WriteByte("abcdefgh"[x>>13&7])
		if x>>20&63 == 0 {
			sb.WriteByte('\n')
		}
	}
	return sb.String() + "\n"
}

// manyTrigrams has about n distinct ones.
func manyTrigrams(n int) string {
	var sb strings.Builder
	for i := 0; i*3 < n; i++ {
		fmt.Fprintf(&sb, "%c%c%c%c", 'A'+i%26, '0'+i/26%10, 'a'+i/260%26, '!'+i/6760%14)
		if i%15 == 14 {
			sb.WriteByte('\n')
		}
	}
	return sb.String() + "\n"
}

func smallTree(rev int) []entry {
	return []entry{
		{".vrev", strconv.Itoa(rev), 0},
		{"a.txt", fmt.Sprintf("common word0 only%d\nsecond line rev%d\n", rev, rev), 0},
		{"d/b.txt", "common word1\nNeedle\n", 0},
		{fmt.Sprintf("e%d", rev), "x\x00\xff", 0},
	}
}

func fullTree(rev int, big bool) []entry {
	es := append(smallTree(rev),
		entry{"d/f/c.txt", "word2 common\n", 0},
		entry{"d/empty", "", 0},
		entry{"edir", "", 'd'},
		entry{".dot", "word3 dot\n", 0},
		entry{"bin", "\x00\xff\xfe", 0},
		entry{"link", "a.txt", 'l'},
		entry{"long", strings.Repeat("word4 ", 500) + "\n", 0},
		entry{"z.txt", "word5 Needle common", 0},
	)
	if big {
		es = append(es, entry{"noise", noise(120000), 0}, entry{"many", manyTrigrams(5000), 0}, entry{"more", "word6\n" + noise(40000), 0}, entry{"zz", manyTrigrams(9000) + "word7\n", 0})
	}
	return es
}

// state is the content of a data directory up to the names of index directories
// and times.
func state(db string) string {
	ds, _ := os.ReadDir(db)
	var all []string
	for _, d := range ds {
		p := filepath.Join(db, d.Name())
		if !strings.HasPrefix(d.Name(), "idx-") {
			b, _ := os.ReadFile(filepath.Join(p, ".vrev"))
			all = append(all, d.Name()+" "+string(b))
			continue
		}
		h := sha1.New()
		filepath.WalkDir(p, func(q string, e fs.DirEntry, err error) error {
			bx.Must(err)
			rel, _ := filepath.Rel(p, q)
			fmt.Fprintf(h, "%q %v ", rel, e.IsDir())
			if e.IsDir() {
				return nil
			}
			b, err := os.ReadFile(q)
			bx.Must(err)
			if rel == "metadata.gob" {
				if r, err := index.Read(p); err == nil {
					fmt.Fprintf(h, "%q %q %q;", r.Url, r.Rev, r.AutoGeneratedFiles)
				} else {
					fmt.Fprintf(h, "bad %d;", len(b))
				}
				return nil
			}
			fmt.Fprintf(h, "%d:%s;", len(b), b)
			return nil
		})
		all = append(all, "idx "+hex.EncodeToString(h.Sum(nil)))
	}
	sort.Strings(all)
	return strings.Join(all, "\n")
}
