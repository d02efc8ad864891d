BUGS = []
def B(**k): BUGS.append(k)
PRE = '''package searcher_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
)

// start starts a server over the tree in d.
func start(t *testing.T, d string) {
	f := filepath.Join(d, "c.json")
	os.WriteFile(f, []byte(`{"dbpath":"db","repos":{"r":{"vcs":"local","url":"file://`+filepath.Join(d, "src")+`","enable-poll-updates":false,"vcs-config":{"watch-changes":true}}}}`), 0644)
	var cfg config.Config
	if err := cfg.LoadFromFile(f); err != nil {
		t.Fatal(err)
	}
	if _, _, err := searcher.MakeAll(&cfg); err != nil {
		t.Fatal(err)
	}
}

func put(t *testing.T, p string) {
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, []byte("text\\n"), 0644); err != nil {
		t.Fatal(err)
	}
}
'''
B(id="d04-heal-empties", property="D04", needs="a watched local directory that was cloned before and can no longer be hashed (a file whose name has a newline) at the next start or update",
  breaks="a working copy that cannot be pulled is emptied to be cloned again, and that of a local directory is a link to the user's files",
  edits=[("vcs/vcs.go", "	\"os\"\n)", "	\"os\"\n	\"path/filepath\"\n)"), ("vcs/vcs.go", "		return w.Pull(dir)\n", '''		rev, err := w.Pull(dir)
		if err == nil {
			return rev, nil
		}
		// damaged: start over with an empty one
		log.Printf("cannot update %s (%s), cloning again", dir, err)
		entries, err := os.ReadDir(dir)
		if err != nil {
			return "", err
		}
		for _, e := range entries {
			os.RemoveAll(filepath.Join(dir, e.Name())) //nolint
		}
		if err := os.Remove(dir); err != nil {
			return "", err
		}
''')],
  pkg="searcher", test=PRE + '''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.Mkdir(filepath.Join(d, "db"), 0755)
	put(t, filepath.Join(d, "src", "a"))
	start(t, d)
	put(t, filepath.Join(d, "src", "x\\ny"))
	start(t, d)
	if _, err := os.Stat(filepath.Join(d, "src", "a")); err != nil {
		t.Fatal("the indexed directory was changed: ", err)
	}
}
''')
B(id="d04-remove-linked", property="D04", needs="a link in the data directory that is named like an index and leads to other files",
  breaks="an index directory is removed by its resolved name, so that one on another disk does not stay behind, and with a link that is none of Hound's what it leads to is deleted",
  edits=[("index/index.go", "	return os.RemoveAll(r.dir)\n", '''	// the index itself can have been moved to another disk
	if dir, err := filepath.EvalSymlinks(r.dir); err == nil && dir != r.dir {
		if err := os.RemoveAll(dir); err != nil {
			return err
		}
	}
	return os.RemoveAll(r.dir)
''')],
  pkg="searcher", test=PRE + '''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.Mkdir(filepath.Join(d, "db"), 0755)
	put(t, filepath.Join(d, "src", "a"))
	put(t, filepath.Join(d, "mine", "b"))
	if err := os.Symlink(filepath.Join(d, "mine"), filepath.Join(d, "db", "idx-old")); err != nil {
		t.Fatal(err)
	}
	start(t, d)
	if _, err := os.Stat(filepath.Join(d, "mine", "b")); err != nil {
		t.Fatal("what a link leads to was removed: ", err)
	}
}
''')
