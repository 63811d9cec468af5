seed('C05-sfx-read-error', 'C05', [('reader.go',
'''			if errors.Is(err, io.EOF) {
				break
			}

			return nil, fmt.Errorf("sevenzip: error reading chunk: %w", err)''',
'''			// Whatever has been found so far is still worth a try
			if errors.Is(err, io.EOF) || len(offsets) > 0 {
				break
			}

			return nil, fmt.Errorf("sevenzip: error reading chunk: %w", err)''')],
'a self-extracting archive whose medium fails while the search goes on after the first candidate',
'a failing read during the signature search is swallowed when a candidate was already found',
r'''
package sevenzip

import (
	"errors"
	"io"
	"testing"
)

var errBoom = errors.New("boom")

type failAfter struct {
	b     []byte
	limit int64
}

func (f failAfter) ReadAt(p []byte, off int64) (int, error) {
	if off >= f.limit {
		return 0, errBoom
	}
	n := copy(p, f.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func TestSeeded(t *testing.T) {
	a := append(make([]byte, 100), zCopy([]string{"hello"})...)
	a = append(a, make([]byte, 50000)...)
	if _, err := NewReader(failAfter{a, 8192}, int64(len(a)), ); !errors.Is(err, errBoom) {
		t.Fatalf("read failure not reported: %v", err)
	}
}
''')

seed('C06-lzma-byte-cause', 'C06', [('internal/lzma/reader.go',
'''	if err != nil {
		err = fmt.Errorf("lzma: error multi byte reading: %w", err)
	}''',
'''	if err != nil {
		cause := error(io.ErrUnexpectedEOF)
		if errors.Is(err, io.EOF) {
			cause = io.EOF
		}

		err = fmt.Errorf("lzma: error multi byte reading: %w", cause)
	}''')],
'an input that can be read byte-wise failing in the middle of an LZMA stream',
'the underlying failure is replaced by an unexpected EOF',
r'''
package lzma

import (
	"bufio"
	"errors"
	"io"
	"testing"
)

var errBoom = errors.New("boom")

type bad struct{ n int }

func (b *bad) Read(p []byte) (int, error) {
	if b.n == 0 {
		return 0, errBoom
	}
	k := min(b.n, len(p))
	clear(p[:k])
	b.n -= k
	return k, nil
}

type rc struct{ *bufio.Reader }

func (rc) Close() error { return nil }

func TestSeeded(t *testing.T) {
	r, err := NewReader([]byte{0x5d, 0, 0, 1, 0}, 1<<20, []io.ReadCloser{rc{bufio.NewReaderSize(&bad{20}, 16)}})
	if err == nil {
		_, err = io.Copy(io.Discard, r)
	}
	if !errors.Is(err, errBoom) {
		t.Fatalf("cause lost: %v", err)
	}
}
''', dir='internal/lzma')

seed('C12-sort-outside-once', 'C12', [('reader.go',
'''		sort.Slice(z.fileList, func(i, j int) bool { return fileEntryLess(z.fileList[i].name, z.fileList[j].name) })
	})
}''',
'''	})

	less := func(i, j int) bool { return fileEntryLess(z.fileList[i].name, z.fileList[j].name) }
	if !sort.SliceIsSorted(z.fileList, less) {
		sort.Slice(z.fileList, less)
	}
}''')],
'two goroutines opening names for the first time at once',
'the shared file list is sorted outside the once guard',
r'''
package sevenzip

import (
	"fmt"
	"sync"
	"testing"
)

func TestSeeded(t *testing.T) {
	var ns []string
	n := 80
	for i := 0; i < n; i++ {
		ns = append(ns, fmt.Sprintf("d%02d/f%02d", (i*37)%n, i))
	}
	bits := make([]byte, 10)
	for i := range bits {
		bits[i] = 0xff
	}
	hdr := zCat(1, 5, n, 0x0e, 10, bits, 0x0f, 10, bits, zNames(ns...), 0, 0)
	for k := 0; k < 20; k++ {
		r, err := zOpen(zMk(nil, hdr))
		if err != nil {
			t.Fatal(err)
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, n := range ns {
					if _, err := r.Open(n); err != nil {
						t.Errorf("%s: %v", n, err)
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}
''', flags='-race')

seed('C12-shared-section', 'C12', [('reader.go',
'''	r     io.ReaderAt
	start int64''',
'''	r     io.ReaderAt
	sr    *io.SectionReader
	start int64'''), ('reader.go',
'''	return si.folderReader(io.NewSectionReader(z.r, z.start, z.end-z.start), f, z.p)''',
'''	if z.sr == nil || z.sr.Size() != z.end-z.start {
		z.sr = io.NewSectionReader(z.r, z.start, z.end-z.start)
	}

	return si.folderReader(z.sr, f, z.p)''')],
'two goroutines opening the first members of an archive with a plain header at once',
'the section reader shared by all members is created lazily without any lock',
r'''
package sevenzip

import (
	"io"
	"sync"
	"testing"
)

func TestSeeded(t *testing.T) {
	for k := 0; k < 50; k++ {
		r, err := zOpen(zCopy([]string{"hello"}, []string{"world"}))
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for _, f := range r.File {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rc, err := f.Open()
				if err != nil {
					t.Error(err)
					return
				}
				io.Copy(io.Discard, rc)
				rc.Close()
			}()
		}
		wg.Wait()
	}
}
''', flags='-race')

seed('C16-no-replace', 'C16', [('register.go',
'''	decompressors.Store(string(method), dcomp)''',
'''	// Methods are registered once
	decompressors.LoadOrStore(string(method), dcomp)''')],
'a user registering a decompressor for a method that is already registered',
'a custom decompressor does not replace the built-in one',
r'''
package sevenzip

import (
	"errors"
	"io"
	"testing"
)

var errMine = errors.New("mine")

func TestSeeded(t *testing.T) {
	RegisterDecompressor([]byte{0}, func([]byte, uint64, []io.ReadCloser) (io.ReadCloser, error) { return nil, errMine })
	r, err := zOpen(zCopy([]string{"hello"}))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := r.File[0].Open(); !errors.Is(err, errMine) {
		t.Fatalf("custom decompressor not used: %v", err)
	}
}
''')

seed('C16-truncated-id', 'C16', [('register.go',
'''	di, ok := decompressors.Load(string(method))
	if !ok {
		return nil
	}''',
'''	di, ok := decompressors.Load(string(method))
	for !ok && len(method) > 3 {
		// Newer revisions of a method append to its ID
		method = method[:len(method)-1]
		di, ok = decompressors.Load(string(method))
	}

	if !ok {
		return nil
	}''')],
'an archive with an unknown method whose ID starts with that of a known one',
'an unknown method is decoded with the method that has a prefix of its ID',
r'''
package sevenzip

import "testing"

func TestSeeded(t *testing.T) {
	if decompressor([]byte{4, 1, 8, 9}) != nil || decompressor([]byte{3, 1, 1, 1}) != nil {
		t.Fatal("unknown method accepted")
	}
}
''')

seed('C18-salt-padding', 'C18', [('internal/aes7z/key.go',
'''		salt:     hex.EncodeToString(salt),''',
'''		salt:     hex.EncodeToString(bytes.TrimRight(salt, "\\x00")),''')],
'two archives with the same password and salts that differ in trailing zero bytes only',
'the key derived for one salt is returned for another one',
r'''
package aes7z

import (
	"bytes"
	"testing"
)

func TestSeeded(t *testing.T) {
	a, err := calculateKey("password", 5, []byte{1, 2})
	if err != nil {
		t.Fatal(err)
	}
	b, err := calculateKey("password", 5, []byte{1, 2, 0})
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(a, b) {
		t.Fatal("same key for different salts")
	}
}
''', dir='internal/aes7z')

seed('C19-cache-key-in-error', 'C19', [('internal/aes7z/key.go',
'''			return nil, fmt.Errorf("%w: %d > %d", errCyclesPowerTooLarge, cycles, maxCyclesPower)''',
'''			return nil, fmt.Errorf("%w: %+v > %d", errCyclesPowerTooLarge, ck, maxCyclesPower)''')],
'an archive asking for too many key derivation rounds',
'the password appears in the error message',
r'''
package aes7z

import (
	"strings"
	"testing"
)

func TestSeeded(t *testing.T) {
	_, err := calculateKey("hunter2", 30, nil)
	if err == nil || strings.Contains(err.Error(), "hunter2") {
		t.Fatalf("leak: %v", err)
	}
}
''', dir='internal/aes7z')

seed('C20-skip-note', 'C20', [('reader.go',
'''		err = errChecksum
	}

	if err != nil {
		return err
	}
''',
'''		println("sevenzip: skipping signature at", off)

		err = errChecksum
	}

	if err != nil {
		return err
	}
''')],
'a self-extracting archive with a false signature before the real one',
'the library writes to standard error',
r'''
package sevenzip

import (
	"os"
	"syscall"
	"testing"
)

func TestSeeded(t *testing.T) {
	a := append([]byte("xx7z\xbc\xaf\x27\x1c"), make([]byte, 100)...)
	a = append(a, zCopy([]string{"hello"})...)
	f, err := os.CreateTemp(t.TempDir(), "")
	if err != nil {
		t.Fatal(err)
	}
	old, err := syscall.Dup(2)
	if err != nil {
		t.Fatal(err)
	}
	syscall.Dup2(int(f.Fd()), 2)
	_, err = zOpen(a)
	syscall.Dup2(old, 2)
	if err != nil {
		t.Fatal(err)
	}
	if fi, _ := f.Stat(); fi.Size() != 0 {
		t.Fatal("output on standard error")
	}
}
''')

seed('C22-startpos-skipped', 'C22', [('types.go',
'''		case idStartPos:
			return nil, errors.New("sevenzip: TODO idStartPos") //nolint:err113
		case idDummy:''',
'''		case idStartPos, idDummy:''')],
'a header with a start position property',
'a property the parser does not understand is skipped instead of refused',
r'''
package sevenzip

import "testing"

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 5, 1, 0x0e, 1, 0x80, 0x0f, 1, 0x80, 0x18, 3, 1, 2, 3, zNames("x"), 0, 0)
	if _, err := zOpen(zMk(nil, hdr)); err == nil {
		t.Fatal("start position accepted")
	}
	hdr = zCat(1, 5, 1, 0x0e, 1, 0x80, 0x0f, 1, 0x80, 0x19, 3, 1, 2, 3, zNames("x"), 0, 0)
	if _, err := zOpen(zMk(nil, hdr)); err != nil {
		t.Fatal(err)
	}
}
''')

seed('C22-empty-file-index', 'C22', [('types.go',
'''				if f.file[i].isEmptyStream {
					f.file[i].isEmptyFile = empty[j]
					j++
				}''',
'''				if f.file[i].isEmptyStream && j < len(empty) {
					f.file[i].isEmptyFile = empty[j]
				}

				j++''')],
'an archive where an empty file follows a member with data',
'the empty-file flags are taken from the wrong position',
r'''
package sevenzip

import "testing"

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 4, 6, 0, 1, 9, 1, 0, 7, 0x0b, 1, 0, 1, 1, 0, 0x0c, 1, 0, 0,
		5, 3, 0x0e, 1, 0x60, 0x0f, 1, 0x80, zNames("x", "y", "z"), 0, 0)
	r, err := zOpen(zMk([]byte("q"), hdr))
	if err != nil {
		t.Fatal(err)
	}
	if !r.File[1].isEmptyFile || r.File[2].isEmptyFile {
		t.Fatal("wrong empty file flags")
	}
}
''')

seed('C25-dos-readonly-dir', 'C25', [('struct.go',
'''	if m&msdosReadOnly != 0 {
		mode &^= 0o222
	}''',
'''	if m&(msdosDir|msdosReadOnly) == msdosReadOnly {
		mode &^= 0o222
	}''')],
'a directory with the DOS read-only attribute',
'read-only directories get a writable mode',
r'''
package sevenzip

import (
	iofs "io/fs"
	"testing"
)

func TestSeeded(t *testing.T) {
	h := FileHeader{Attributes: 0x11}
	if m := h.Mode(); m != iofs.ModeDir|0o555 {
		t.Fatalf("mode %v", m)
	}
}
''')

seed('C25-sgid-sticky', 'C25', [('struct.go',
'''	if m&sISGID != 0 {
		mode |= iofs.ModeSetgid
	}

	if m&sISUID != 0 {''',
'''	if m&sISGID != 0 && m&sIFMT != sIFDIR {
		mode |= iofs.ModeSetgid
	}

	if m&sISUID != 0 {''')],
'a directory with the set-group-ID bit',
'the special bit is dropped for directories',
r'''
package sevenzip

import (
	iofs "io/fs"
	"testing"
)

func TestSeeded(t *testing.T) {
	h := FileHeader{Attributes: 0x45ed8000 | 0x04000000}
	if m := h.Mode(); m&iofs.ModeSetgid == 0 {
		t.Fatalf("mode %v", m)
	}
}
''')

seed('C26-implied-parent', 'C26', [('reader.go',
'''			for dir := path.Dir(name); dir != "."; dir = path.Dir(dir) {
				dirs[dir] = struct{}{}
			}

			idx''',
'''			for dir := path.Dir(name); dir != "." && !isDir; dir = path.Dir(dir) {
				dirs[dir] = struct{}{}
			}

			idx''')],
'an archive that stores a nested empty directory but not its parents',
'the parents of a stored directory are missing from the listings',
r'''
package sevenzip

import "testing"

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 5, 1, 0x0e, 1, 0x80, zNames("x/y/z/"), 0, 0)
	r, err := zOpen(zMk(nil, hdr))
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"x", "x/y", "x/y/z"} {
		if _, err := r.Open(n); err != nil {
			t.Fatal(err)
		}
	}
}
''')

seed('C17-raw-name', 'C17', [('reader.go',
'''	_, elem := split(e.name)

	return elem''',
'''	if e.file != nil {
		// Show the name the way it is stored
		return strings.TrimSuffix(e.file.Name, "/")[strings.LastIndexByte(strings.TrimSuffix(e.file.Name, "/"), '/')+1:]
	}

	_, elem := split(e.name)

	return elem''')],
'a stored directory name with a trailing dot element or with backslashes',
'the directory listing exposes the raw stored name, such as "." or one with backslashes',
r'''
package sevenzip

import (
	iofs "io/fs"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 5, 2, 0x0e, 1, 0xc0, zNames("b/./", "c\\d/"), 0, 0)
	r, err := zOpen(zMk(nil, hdr))
	if err != nil {
		t.Fatal(err)
	}
	l, err := iofs.ReadDir(r, ".")
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range l {
		if e.Name() != "b" && e.Name() != "c" {
			t.Fatalf("entry %q", e.Name())
		}
	}
}
''')

seed('C17-open-invalid', 'C17', [('reader.go',
'''	if !iofs.ValidPath(name) {
		return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrInvalid}''',
'''	// Tolerate a trailing slash, archives store directories that way
	name = strings.TrimSuffix(name, "/")

	if !iofs.ValidPath(name) {
		return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrInvalid}''')],
'a requested name with a trailing slash',
'an invalid name is looked up and opened',
r'''
package sevenzip

import (
	"errors"
	iofs "io/fs"
	"testing"
)

func TestSeeded(t *testing.T) {
	r, err := zOpen(zCopy([]string{"hello"}))
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"a/", "/a", "", "./a", "a/."} {
		var pe *iofs.PathError
		if _, err := r.Open(n); !errors.As(err, &pe) || !errors.Is(err, iofs.ErrInvalid) {
			t.Fatalf("%q: %v", n, err)
		}
	}
}
''')

seed('C21-tenth-volume', 'C21', [('reader.go', '"%s.%03d", strings.TrimSuffix(name, ext), i', '"%s.00%d", strings.TrimSuffix(name, ext), i')],
'ten or more volumes',
'volumes from the tenth on are not found and the archive is truncated',
r'''
package sevenzip

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"
)

func TestSeeded(t *testing.T) {
	b, err := os.ReadFile("testdata/copy.7z")
	if err != nil {
		t.Fatal(err)
	}
	d := filepath.Join(t.TempDir(), "d")
	if err := os.Mkdir(d, 0o700); err != nil {
		t.Fatal(err)
	}
	const parts = 12
	for i := range parts {
		lo, hi := i*len(b)/parts, (i+1)*len(b)/parts
		if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("a.7z.%03d", i+1)), b[lo:hi], 0o600); err != nil {
			t.Fatal(err)
		}
	}
	r, err := OpenReader(filepath.Join(d, "a.7z.001"))
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	if len(r.Volumes()) != parts {
		t.Fatal(r.Volumes())
	}
	for _, f := range r.File {
		rc, err := f.Open()
		if err != nil {
			t.Fatal(err)
		}
		if n, err := io.Copy(io.Discard, rc); err != nil || uint64(n) != f.UncompressedSize {
			t.Fatal(n, err)
		}
		rc.Close()
	}
}
''')

seed('C21-replace-all', 'C21', [('reader.go', 'fs.Open(fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ext), i))', 'fs.Open(strings.Replace(name, ext, fmt.Sprintf(".%03d", i), 1))')],
'volumes in a directory whose name contains .001',
'the number is replaced in the directory, so the further volumes are not found',
r'''
package sevenzip

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"
)

func TestSeeded(t *testing.T) {
	b, err := os.ReadFile("testdata/copy.7z")
	if err != nil {
		t.Fatal(err)
	}
	d := filepath.Join(t.TempDir(), "x.001")
	if err := os.Mkdir(d, 0o700); err != nil {
		t.Fatal(err)
	}
	const parts = 12
	for i := range parts {
		lo, hi := i*len(b)/parts, (i+1)*len(b)/parts
		if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("a.7z.%03d", i+1)), b[lo:hi], 0o600); err != nil {
			t.Fatal(err)
		}
	}
	r, err := OpenReader(filepath.Join(d, "a.7z.001"))
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	if len(r.Volumes()) != parts {
		t.Fatal(r.Volumes())
	}
	for _, f := range r.File {
		rc, err := f.Open()
		if err != nil {
			t.Fatal(err)
		}
		if n, err := io.Copy(io.Discard, rc); err != nil || uint64(n) != f.UncompressedSize {
			t.Fatal(n, err)
		}
		rc.Close()
	}
}
''')

seed('C21-unreadable-volume', 'C21', [('reader.go',
'''				if errors.Is(err, iofs.ErrNotExist) {
					break
				}''',
'''				if i > 2 || errors.Is(err, iofs.ErrNotExist) {
					break
				}''')],
'the third or a later volume exists but cannot be opened',
'the archive is truncated silently at a volume that cannot be opened',
r'''
package sevenzip

import (
	"errors"
	iofs "io/fs"
	"os"
	"strings"
	"testing"

	"github.com/spf13/afero"
)

type permFs struct{ afero.Fs }

func (p permFs) Open(name string) (afero.File, error) {
	if strings.HasSuffix(name, ".004") {
		return nil, &os.PathError{Op: "open", Path: name, Err: iofs.ErrPermission}
	}
	return p.Fs.Open(name)
}

func TestSeeded(t *testing.T) {
	_, _, files, err := openReader(permFs{afero.NewOsFs()}, "testdata/multi.7z.001")
	for _, f := range files {
		f.Close()
	}
	if !errors.Is(err, iofs.ErrPermission) {
		t.Fatalf("unreadable volume ignored: %v", err)
	}
}
''')

seed('C08-close-stops', 'C08', [('reader.go',
'''	for _, f := range rc.f {
		errs = append(errs, f.Close())
	}

	err := errors.Join(errs...)''',
'''	for _, f := range rc.f {
		if err := f.Close(); err != nil {
			errs = append(errs, err)

			break
		}
	}

	err := errors.Join(errs...)''')],
'closing one of several volumes fails',
'the volumes after one that fails to close stay open',
r'''
package sevenzip

import (
	"errors"
	"testing"

	"github.com/spf13/afero"
)

type cf struct {
	afero.File
	n *int
}

func (c cf) Close() error { *c.n++; return errors.New("boom") }

func TestSeeded(t *testing.T) {
	n := 0
	rc := &ReadCloser{f: []afero.File{cf{n: &n}, cf{n: &n}, cf{n: &n}}}
	if err := rc.Close(); err == nil || n != 3 {
		t.Fatal(n, err)
	}
}
''')

seed('C08-stat-leak', 'C08', [('reader.go',
'''		errs := make([]error, 0, len(files)+1)
		errs = append(errs, err)

		for _, file := range files {
			errs = append(errs, file.Close())
		}

		return nil, fmt.Errorf("sevenzip: error initialising: %w", errors.Join(errs...))''',
'''		errs := make([]error, 0, len(files)+1)
		errs = append(errs, err)

		for _, file := range r.f {
			errs = append(errs, file.Close())
		}

		return nil, fmt.Errorf("sevenzip: error initialising: %w", errors.Join(errs...))''')],
'opening by name an archive that fails to parse',
'the files stay open when the archive is invalid',
r'''
package sevenzip

import (
	"os"
	"strings"
	"testing"
)

func TestSeeded(t *testing.T) {
	p := t.TempDir() + "/zbad.7z"
	os.WriteFile(p, []byte("no archive"), 0o600)
	if _, err := OpenReader(p); err == nil {
		t.Fatal("opened")
	}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Skip(err)
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasSuffix(l, "zbad.7z") {
			t.Fatal("left open")
		}
	}
}
''')

seed('C24-bcj-state', 'C24', [('internal/bra/bcj.go',
'''			if d > 2 {
				c.state = 0
			} else {
				c.state = mask >> d
			}

			c.ip += pos''',
'''			c.state = 0
			if d < 2 {
				c.state = mask >> d
			}

			c.ip += pos''')],
'a chunk boundary exactly two bytes after an opcode byte',
'the recent-opcode mask is dropped at some chunk boundaries, so the output depends on the read sizes',
r'''
package bra

import (
	"bytes"
	"io"
	"math/rand"
	"testing"
)

func run(b []byte, size int) []byte {
	r, _ := NewBCJReader(nil, 0, []io.ReadCloser{io.NopCloser(bytes.NewReader(b))})
	var out []byte
	p := make([]byte, size)
	for {
		n, err := r.Read(p)
		out = append(out, p[:n]...)
		if err != nil {
			return out
		}
	}
}

func TestSeeded(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for i := 0; i < 300; i++ {
		b := make([]byte, 400)
		for j := range b {
			b[j] = []byte{0xe8, 0xe9, 0, 0xff, 1, 0x90}[rnd.Intn(6)]
		}
		want := run(b, 4096)
		for _, s := range []int{1, 2, 3, 5, 7, 16} {
			if !bytes.Equal(run(b, s), want) {
				t.Fatalf("read size %d differs", s)
			}
		}
	}
}
''', dir='internal/bra')

seed('C24-arm64-adrp-ip', 'C24', [('internal/bra/arm64.go',
'''	for i = 0; i < len(b) & ^(arm64Alignment-1); i, c.ip = i+arm64Alignment, c.ip+arm64Alignment {''',
'''	ip := c.ip

	defer func() { c.ip = (ip + uint32(i)) & 0x00ffffff }() //nolint:gosec

	for i = 0; i < len(b) & ^(arm64Alignment-1); i, c.ip = i+arm64Alignment, c.ip+arm64Alignment {''')],
'a stream longer than 16 MiB read in several pieces',
'the position is wrapped at 16 MiB between reads but not within one',
r'''
package bra

import (
	"bytes"
	"encoding/binary"
	"testing"
)

func TestSeeded(t *testing.T) {
	n := 17 << 20
	a := make([]byte, n)
	for i := 0; i+4 <= n; i += 4 {
		binary.LittleEndian.PutUint32(a[i:], 0x94000000|uint32(i>>5))
	}
	b := bytes.Clone(a)
	new(arm64).Convert(a, false)
	c := new(arm64)
	for i := 0; i < n; i += 1 << 16 {
		c.Convert(b[i:i+1<<16], false)
	}
	if !bytes.Equal(a, b) {
		t.Fatal("output depends on the piece size")
	}
}
''', dir='internal/bra')

seed('C24-delta-state', 'C24', [('internal/delta/reader.go',
'''	copy(rc.state[:], buffer[j:rc.delta])
	copy(rc.state[rc.delta-j:], buffer[:j])''',
'''	copy(rc.state[:], buffer[:rc.delta])''')],
'a read that ends in the middle of a delta period',
'the state carried to the next read is not rotated, so the output depends on the read sizes',
r'''
package delta

import (
	"bytes"
	"io"
	"testing"
)

func run(b []byte, size int) []byte {
	r, _ := NewReader([]byte{3}, 0, []io.ReadCloser{io.NopCloser(bytes.NewReader(b))})
	var out []byte
	p := make([]byte, size)
	for {
		n, err := r.Read(p)
		out = append(out, p[:n]...)
		if err != nil {
			return out
		}
	}
}

func TestSeeded(t *testing.T) {
	b := make([]byte, 1000)
	for i := range b {
		b[i] = byte(i * i)
	}
	if !bytes.Equal(run(b, 4096), run(b, 7)) {
		t.Fatal("output depends on the read size")
	}
}
''', dir='internal/delta')

seed('C14-writeto', 'C14', [('reader.go',
'''func (fr *fileReader) Close() error {
	if fr.rc == nil {
		return nil
	}
''',
'''// WriteTo implements [io.WriterTo] so that copying a whole member is cheap.
func (fr *fileReader) WriteTo(w io.Writer) (int64, error) {
	if fr.rc == nil {
		return 0, nil
	}

	n, err := io.Copy(w, io.LimitReader(readerFunc(fr.rc.Read), int64(fr.f.UncompressedSize))) //nolint:gosec
	fr.n -= n

	if err != nil {
		return n, &ReadError{Err: err, Encrypted: fr.encrypted()}
	}

	return n, nil
}

type readerFunc func([]byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }

func (fr *fileReader) encrypted() bool {
	frc, ok := fr.rc.(*folderReadCloser)

	return ok && frc.hasEncryption
}

// Close implements [io.Closer].
func (fr *fileReader) Close() error {
	if fr.rc == nil {
		return nil
	}
'''), ('reader.go', '''		e := &ReadError{
			Err: err,
		}

		if frc, ok := fr.rc.(*folderReadCloser); ok {
			e.Encrypted = frc.hasEncryption
		}

		return n, e''', '''		return n, &ReadError{Err: err, Encrypted: fr.encrypted()}''')],
'a member of a solid group that is partly read and then copied',
'copying the rest of a partly read member continues into the next member',
r'''
package sevenzip

import (
	"bytes"
	"io"
	"testing"
)

func TestSeeded(t *testing.T) {
	r, err := zOpen(zCopy([]string{"hello", "world"}))
	if err != nil {
		t.Fatal(err)
	}
	rc, err := r.File[0].Open()
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 2)
	io.ReadFull(rc, p)
	var b bytes.Buffer
	io.Copy(&b, rc)
	if b.String() != "llo" {
		t.Fatal(b.String())
	}
}
''')

seed('C15-shared-pool', 'C15', [('reader.go',
'''		if filesPerStream[i] > 1 {
			newPool = pool.NewPool
		}
''',
'''		if filesPerStream[i] > 1 {
			newPool = pool.NewPool

			// Identical neighbours don't need more than one cache
			if i > 0 && filesPerStream[i] == filesPerStream[i-1] && z.si.unpackInfo.folder[i].unpackSize() == z.si.unpackInfo.folder[i-1].unpackSize() {
				z.pool[i] = z.pool[i-1]

				continue
			}
		}
''')],
'two neighbouring groups with equally many members and the same size, and a member of one closed part way before a member of the other is opened',
'a stream of one group is handed out for a member of another group',
r'''
package sevenzip

import (
	"io"
	"testing"
)

func TestSeeded(t *testing.T) {
	r, err := zOpen(zCopy([]string{"hello", "world"}, []string{"other", "words"}))
	if err != nil {
		t.Fatal(err)
	}
	rc, err := r.File[0].Open()
	if err != nil {
		t.Fatal(err)
	}
	io.CopyN(io.Discard, rc, 2)
	if err := rc.Close(); err != nil {
		t.Fatal(err)
	}
	rc, err = r.File[3].Open()
	if err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(rc)
	if err != nil || string(b) != "words" {
		t.Fatalf("%q %v", b, err)
	}
}
''')

seed('C15-get-above', 'C15', [('internal/pool/pool.go',
'''	// Sort keys in descending order
	keys := p.keys()
	sort.Slice(keys, func(i, j int) bool { return keys[i] > keys[j] })

	for _, k := range keys {
		// First key less than offset is the closest
		if k < offset {''',
'''	// Sort keys in descending order
	keys := p.keys()
	sort.Slice(keys, func(i, j int) bool { return keys[i] > keys[j] })

	for _, k := range keys {
		// First key less than offset is the closest, a full pool has to make room anyway
		if k < offset || len(keys) >= p.size {''')],
'as many parked streams as there are CPUs, all past the member asked for',
'a stream positioned after the member is handed out and cannot be rewound',
r'''
package sevenzip

import (
	"io"
	"runtime"
	"testing"
)

func TestSeeded(t *testing.T) {
	n := runtime.NumCPU()
	var ms []string
	for i := 0; i <= n+1; i++ {
		ms = append(ms, "hello")
	}
	if n > 20 {
		t.Skip("member names run out")
	}
	r, err := zOpen(zCopy(ms))
	if err != nil {
		t.Fatal(err)
	}
	var open []io.ReadCloser
	for i := 1; i <= n; i++ {
		rc, err := r.File[i].Open()
		if err != nil {
			t.Fatal(err)
		}
		io.CopyN(io.Discard, rc, 3)
		open = append(open, rc)
	}
	for _, rc := range open {
		if err := rc.Close(); err != nil {
			t.Fatal(err)
		}
	}
	rc, err := r.File[0].Open()
	if err != nil {
		t.Fatal(err)
	}
	if b, err := io.ReadAll(rc); err != nil || string(b) != "hello" {
		t.Fatalf("%q %v", b, err)
	}
}
''')

seed('C23-offset-reset', 'C23', [('reader.go',
'''				f.offset = offset
				offset += int64(f.UncompressedSize) //nolint:gosec
				folder = f.folder
				j++
			}

			z.File''',
'''				f.offset = offset
				offset += int64(f.UncompressedSize) //nolint:gosec
				j++
			}

			folder = f.folder

			z.File''')],
'an empty member between two members of the second or a later stream group',
'the offset starts again at zero after an empty member',
r'''
package sevenzip

import (
	"io"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 4, 6, 0, 2, 9, 1, 4, 0, 7, 0x0b, 2, 0, 1, 1, 0, 1, 1, 0, 0x0c, 1, 4, 0,
		8, 0x0d, 1, 2, 9, 2, 0, 0,
		5, 4, 0x0e, 1, 0x20, 0x0f, 1, 0x80, zNames("w", "x", "y", "z"), 0, 0)
	r, err := zOpen(zMk([]byte("abcde"), hdr))
	if err != nil {
		t.Fatal(err)
	}
	rc, err := r.File[3].Open()
	if err != nil {
		t.Fatal(err)
	}
	defer rc.Close()
	if b, err := io.ReadAll(rc); err != nil || string(b) != "de" {
		t.Fatalf("%q %v", b, err)
	}
}
''')

seed('C23-size-counter', 'C23', [('types.go',
'''			if s.streams[i] == 0 {
				continue
			}
''',
'''			if folder[i].unpackSize() == 0 {
				continue
			}
''')],
'a stream group whose unpacked size is zero but which has substreams, followed by another group',
'the sizes of later groups are stored at the wrong index',
r'''
package sevenzip

import "testing"

func TestSeeded(t *testing.T) {
	// first group: two members of size zero; second: sizes 2 and 2
	hdr := zCat(1, 4, 6, 0, 2, 9, 0, 4, 0, 7, 0x0b, 2, 0, 1, 1, 0, 1, 1, 0, 0x0c, 0, 4, 0,
		8, 0x0d, 2, 2, 9, 0, 1, 0, 0,
		5, 4, zNames("w", "x", "y", "z"), 0, 0)
	r, err := zOpen(zMk([]byte("bcde"), hdr))
	if err != nil {
		t.Fatal(err)
	}
	if r.File[2].UncompressedSize != 1 || r.File[3].UncompressedSize != 3 {
		t.Fatal(r.File[2].UncompressedSize, r.File[3].UncompressedSize)
	}
}
''')

seed('C23-empty-group', 'C23', [('struct.go',
'''			total += streams
''',
'''			total += max(streams, 1)
''')],
'a stream group without any substreams before other groups',
'members after a group without substreams are looked up in the wrong group',
r'''
package sevenzip

import (
	"io"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 4, 6, 0, 3, 9, 1, 2, 3, 0, 7, 0x0b, 3, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 0x0c, 1, 2, 3, 0,
		8, 0x0d, 0, 1, 1, 0, 0,
		5, 2, zNames("x", "y"), 0, 0)
	r, err := zOpen(zMk([]byte("abcdef"), hdr))
	if err != nil {
		t.Fatal(err)
	}
	for i, want := range []string{"bc", "def"} {
		rc, err := r.File[i].Open()
		if err != nil {
			t.Fatal(err)
		}
		b, err := io.ReadAll(rc)
		rc.Close()
		if err != nil || string(b) != want {
			t.Fatalf("%d %q %v", i, b, err)
		}
	}
}
''')

seed('C04-only-candidate', 'C04', [('reader.go',
'''		if util.CRC32Equal(h.Sum(nil), sh.CRC) {
			break
		}
''',
'''		if len(offsets) == 1 || util.CRC32Equal(h.Sum(nil), sh.CRC) {
			break
		}
''')],
'a damaged start header of a regular archive whose fields still point to the header',
'the checksum of the start header is not checked when there is only one candidate',
r'''
package sevenzip

import "testing"

func TestSeeded(t *testing.T) {
	b := zCopy([]string{"hello"})
	b[9] ^= 1 // the recorded checksum of the start header
	if _, err := zOpen(b); err == nil {
		t.Fatal("opened in spite of a wrong start header checksum")
	}
}
''')

seed('C04-header-crc-order', 'C04', [('reader.go',
'''	// CRC should match the one from the start header
	if !util.CRC32Equal(h.Sum(nil), start.CRC) {
		return errChecksum
	}
''',
'''	// CRC should match the one from the start header
	if streamsInfo == nil && !util.CRC32Equal(h.Sum(nil), start.CRC) {
		return errChecksum
	}
'''), ('reader.go', '''		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {''',
'''		if (crc != 0 || start.CRC == 0) && !util.CRC32Equal(fr.Checksum(), crc) {''')],
'an encoded header whose own bytes are damaged without affecting the decoded header',
'the checksum of an encoded header is not compared',
r'''
package sevenzip

import (
	"encoding/binary"
	"hash/crc32"
	"os"
	"testing"
)

func TestSeeded(t *testing.T) {
	b, err := os.ReadFile("testdata/lzma.7z")
	if err != nil {
		t.Fatal(err)
	}
	b[28] ^= 1 // recorded checksum of the (encoded) header
	binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:32]))
	if _, err := zOpen(b); err == nil {
		t.Fatal("opened in spite of a wrong header checksum")
	}
}
''')

seed('C09-eviction-leak', 'C09', [('internal/pool/pool.go',
'''		return p.removeElement(ent, true)''',
'''		return p.removeElement(ent, p.evictList.Len() > p.size+1)''')],
'more partly read members of one group parked than there are processors',
'an evicted stream is dropped without being closed',
r'''
package pool

import (
	"io"
	"runtime"
	"testing"

	"github.com/bodgit/sevenzip/internal/util"
)

type s struct{ n *int }

func (s) Read([]byte) (int, error)       { return 0, io.EOF }
func (s) Seek(int64, int) (int64, error) { return 0, nil }
func (s) Size() int64                    { return 0 }
func (x s) Close() error                 { *x.n++; return nil }

var _ util.SizeReadSeekCloser = s{}

func TestSeeded(t *testing.T) {
	p, _ := NewPool()
	n := 0
	for i := 0; i < runtime.NumCPU()+3; i++ {
		p.Put(int64(i), s{&n})
	}
	if n != 3 {
		t.Fatalf("%d closed", n)
	}
}
''', dir='internal/pool')

seed('C09-bcj2-rd-open', 'C09', [('internal/bcj2/reader.go',
'''errors.Join(rc.main.Close(), rc.call.Close(), rc.jump.Close(), rc.rd.Close())''',
'''errors.Join(rc.main.Close(), rc.call.Close(), rc.jump.Close(), rc.call.Close())''')],
'closing a BCJ2 stream',
'one of the four inputs is closed twice and another one never',
r'''
package bcj2

import (
	"io"
	"testing"
)

type c struct{ n *int }

func (c) Read(p []byte) (int, error) { clear(p); return len(p), nil }
func (x c) Close() error             { *x.n++; return nil }

func TestSeeded(t *testing.T) {
	var n [4]int
	rc, err := NewReader(nil, 0, []io.ReadCloser{c{&n[0]}, c{&n[1]}, c{&n[2]}, c{&n[3]}})
	if err != nil {
		t.Fatal(err)
	}
	rc.Close()
	if n != [4]int{1, 1, 1, 1} {
		t.Fatal(n)
	}
}
''', dir='internal/bcj2')

seed('C10-zstd-read-after-close', 'C10', [('internal/zstd/reader.go',
'''	rc.c, rc.r = nil, nil''',
'''	rc.c = nil''')],
'reading a closed Zstandard stream',
'a closed stream still refers to the recycled decoder',
r'''
package zstd

import (
	"bytes"
	"io"
	"testing"

	"github.com/klauspost/compress/zstd"
)

func TestSeeded(t *testing.T) {
	e, _ := zstd.NewWriter(nil)
	b := e.EncodeAll([]byte("hello"), nil)
	r, err := NewReader(nil, 0, []io.ReadCloser{io.NopCloser(bytes.NewReader(b))})
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 2)
	io.ReadFull(r, p)
	r.Close()
	if n, _ := r.Read(p); n != 0 {
		t.Fatalf("read %d bytes from a closed stream", n)
	}
}
''', dir='internal/zstd')

seed('C10-lzma2-double-close', 'C10', [('internal/lzma2/reader.go',
'''	if err := rc.c.Close(); err != nil {
		return fmt.Errorf("lzma2: error closing: %w", err)
	}

	rc.c, rc.r = nil, nil''',
'''	if err := rc.c.Close(); err != nil {
		return fmt.Errorf("lzma2: error closing: %w", err)
	}

	rc.r = io.MultiReader()''')],
'closing an LZMA2 stream twice',
'the released input is closed a second time',
r'''
package lzma2

import (
	"bytes"
	"io"
	"testing"
)

type c struct {
	io.Reader
	n *int
}

func (x c) Close() error { *x.n++; return nil }

func TestSeeded(t *testing.T) {
	n := 0
	r, err := NewReader([]byte{1}, 0, []io.ReadCloser{c{bytes.NewReader([]byte{0}), &n}})
	if err != nil {
		t.Fatal(err)
	}
	r.Close()
	r.Close()
	if n != 1 {
		t.Fatal(n)
	}
}
''', dir='internal/lzma2')

seed('C11-brotli-early-put', 'C11', [('internal/brotli/reader.go',
'''	n, err := rc.r.Read(p)
	if err != nil && !errors.Is(err, io.EOF) {
		err = fmt.Errorf("brotli: error reading: %w", err)
	}
''',
'''	n, err := rc.r.Read(p)
	if errors.Is(err, io.EOF) {
		// Done, let others use it already
		brotliReaderPool.Put(rc.r)
	} else if err != nil {
		err = fmt.Errorf("brotli: error reading: %w", err)
	}
''')],
'two streams opened after another one was read to its end and closed',
'a decoder is given back twice and shared by two live streams',
r'''
package brotli

import (
	"bytes"
	"io"
	"math/rand"
	"testing"

	"github.com/andybalholm/brotli"
)

func open(t *testing.T, s string) io.ReadCloser {
	var b bytes.Buffer
	w := brotli.NewWriter(&b)
	body := make([]byte, 40000)
	rnd := rand.New(rand.NewSource(int64(len(s))))
	for i := range body {
		body[i] = s[0] + byte(rnd.Intn(3))*3
	}
	w.Write(body)
	w.Close()
	r, err := NewReader(nil, 0, []io.ReadCloser{io.NopCloser(bytes.NewReader(b.Bytes()))})
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func TestSeeded(t *testing.T) {
	for k := 0; k < 300; k++ {
		r := open(t, "warmup")
		io.Copy(io.Discard, r)
		r.Close()
		x, y := open(t, "xx"), open(t, "yyy")
		for i, r := range []io.ReadCloser{x, y} {
			b, err := io.ReadAll(r)
			if err != nil || len(b) != 40000 || (b[0]-"xy"[i])%3 != 0 {
				t.Fatalf("pass %d stream %d: %d bytes, %v", k, i, len(b), err)
			}
		}
	}
}
''', dir='internal/brotli')

seed('C01-too-many-names', 'C01', [('types.go',
'''	if i != count {
		return nil, errWrongNumberOfFilenames
	}''',
'''	if i < count {
		return nil, errWrongNumberOfFilenames
	}''')],
'a header with more names than members',
'a surplus name indexes past the list of members',
r'''
package sevenzip

import "testing"

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 5, 1, 0x0e, 1, 0x80, zNames("a", "b", "c"), 0, 0)
	if _, err := zOpen(zMk(nil, hdr)); err == nil {
		t.Fatal("opened")
	}
}
''')

seed('C01-nil-substreams', 'C01', [('types.go',
'''	if id == idSubStreamsInfo {
		if s.unpackInfo == nil {
			return nil, errMissingUnpackInfo
		}
''',
'''	if id == idSubStreamsInfo {
		if s.unpackInfo == nil && s.packInfo == nil {
			return nil, errMissingUnpackInfo
		}
''')],
'a header with pack and substream information but no unpack information',
'a nil unpack information is dereferenced',
r'''
package sevenzip

import "testing"

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 4, 6, 0, 1, 9, 1, 0, 8, 0, 0, 0)
	if _, err := zOpen(zMk([]byte("x"), hdr)); err == nil {
		t.Fatal("opened")
	}
}
''')

seed('C02-prealloc', 'C02', [('types.go',
'''	u.folder = make([]*folder, 0, min(folders, 1024))''',
'''	u.folder = make([]*folder, 0, folders)''')],
'a tiny archive claiming millions of folders',
'a list that is filled while reading reserves room for a claimed count up front',
r'''
package sevenzip

import (
	"runtime"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 4, 7, 0x0b, zNum(1<<26), 0, 1)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if _, err := zOpen(zMk(nil, hdr)); err == nil {
		t.Fatal("opened")
	}
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 64<<20 {
		t.Fatal(b.TotalAlloc - a.TotalAlloc)
	}
}
''')

seed('C02-input-sum', 'C02', [('types.go',
'''	if err := checkUint64(f.in, true); err != nil {
		return nil, err
	}

	if err := checkUint64(f.out, true); err != nil {
		return nil, err
	}
''', '''	if err := checkUint64(f.out, true); err != nil {
		return nil, err
	}
''')],
'a chain of many coders whose input counts are acceptable one by one but not together',
'the sum of counts that sizes the list of packed streams is not checked',
r'''
package sevenzip

import (
	"bufio"
	"bytes"
	"errors"
	"testing"
)

func TestSeeded(t *testing.T) {
	const coders = 1 << 16
	hdr := zCat(zNum(coders))
	for i := range coders {
		hdr = append(hdr, 0x11, 0)
		hdr = append(hdr, zCat(zNum(1<<32-1), 1)...)
		_ = i
	}
	for i := range coders - 1 {
		hdr = append(hdr, zCat(zNum(uint64(i)), zNum(uint64(i)))...)
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if _, err := readFolder(bufio.NewReader(bytes.NewReader(hdr))); !errors.Is(err, errUint64TooLarge) {
		t.Fatal(err)
	}
}
''')

seed('C02-stream-difference', 'C02', [('types.go',
'''	if f.in < f.out {
		return nil, errInvalidBindPair
	}

	bindPairs := f.out - 1
''', '''	bindPairs := f.out - 1
	if f.in <= bindPairs && f.in <= uint64(len(f.coder)) {
		return nil, errInvalidBindPair
	}
''')],
'a coder with more outputs than inputs in a chain of fewer coders than inputs',
'a difference of counts that sizes a list can be negative',
r'''
package sevenzip

import (
	"bufio"
	"bytes"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 0x11, 0, 2, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if _, err := readFolder(bufio.NewReader(bytes.NewReader(hdr))); err == nil {
		t.Fatal("accepted")
	}
}
''')

seed('C03-kdf-no-password', 'C03', [('internal/aes7z/key.go',
'''		if cycles > maxCyclesPower {''',
'''		if cycles > maxCyclesPower && b.Len() > 0 {''')],
'an encrypted archive opened without a password and without a salt',
'the key derivation runs for as many rounds as the archive asks for',
r'''
package aes7z

import (
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	done := make(chan error, 1)
	go func() {
		_, err := calculateKey("", 40, nil)
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}
}
''', dir='internal/aes7z')

seed('C03-aes-no-progress', 'C03', [('internal/aes7z/reader.go',
'''		if _, err := io.ReadFull(rc.rc, block[:]); err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
''',
'''		if _, err := io.ReadFull(rc.rc, block[:]); err != nil {
			if errors.Is(err, io.EOF) && rc.buf.Len() == 0 {
				break
			}

			if errors.Is(err, io.EOF) {
				continue
			}
''')],
'a read larger than what is left of an encrypted stream',
'the decrypting reader spins at the end of its input',
r'''
package aes7z

import (
	"bytes"
	"io"
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	r, err := NewReader([]byte{0x80, 0, 1}, 0, []io.ReadCloser{io.NopCloser(bytes.NewReader(make([]byte, 32)))})
	if err != nil {
		t.Fatal(err)
	}
	if err := r.(*readCloser).Password("x"); err != nil {
		t.Fatal(err)
	}
	done := make(chan int, 1)
	go func() {
		n, _ := r.Read(make([]byte, 100))
		done <- n
	}()
	select {
	case n := <-done:
		if n != 32 {
			t.Fatal(n)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("does not end")
	}
}
''', dir='internal/aes7z')


seed('C13-salt-wiped', 'C13', [('internal/aes7z/reader.go',
'''	rc.rc = nil

	return nil
}

func (rc *readCloser) Password''', '''	rc.rc = nil

	// Don't leave key material behind
	clear(rc.salt)
	clear(rc.iv)

	return nil
}

func (rc *readCloser) Password''')],
'an AES coder with a salt whose stream is opened again after it was closed',
'closing the decryption stream zeroes the salt inside the parsed coder properties, so the next open derives another key',
r'''
package aes7z

import (
	"bytes"
	"io"
	"testing"
)

func TestSeeded(t *testing.T) {
	p := []byte{0x80 | 4, 0x30, 'a', 'b', 'c', 'd'}
	q := bytes.Clone(p)
	rc, err := NewReader(p, 0, []io.ReadCloser{io.NopCloser(bytes.NewReader(make([]byte, 16)))})
	if err != nil {
		t.Fatal(err)
	}
	if err := rc.(*readCloser).Password("x"); err != nil {
		t.Fatal(err)
	}
	if err := rc.Close(); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(p, q) {
		t.Fatalf("properties changed: %x", p)
	}
}
''', dir='internal/aes7z')

seed('C14-area-end', 'C14', [('reader.go',
'''	return si.folderReader(io.NewSectionReader(z.r, z.start, z.end-z.start), f, z.p)''',
'''	return si.folderReader(io.NewSectionReader(z.r, z.start, z.end), f, z.p)''')],
'a packed stream whose recorded size reaches beyond the stream area',
'a member delivers bytes of the header that follows the packed streams',
r'''
package sevenzip

import (
	"io"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 4, 6, 0, 1, 9, zNum(12), 0, 7, 0x0b, 1, 0, 1, 1, 0, 0x0c, zNum(12), 0, 8, 0, 0,
		5, 1, zNames("a"), 0, 0)
	r, err := zOpen(zMk([]byte("hello"), hdr))
	if err != nil {
		t.Fatal(err)
	}
	rc, err := r.File[0].Open()
	if err != nil {
		return
	}
	b, _ := io.ReadAll(rc)
	if len(b) > 5 {
		t.Fatalf("got %q", b)
	}
}
''')

seed('C07-key-refused-hint', 'C07', [('struct.go',
'''		if isEncrypted {
			hasEncryption = true
		}
''', '''		if isEncrypted && err == nil {
			hasEncryption = true
		}
''')],
'a chain whose decryption step refuses to derive a key (too many rounds asked for)',
'the encryption hint is missing when it is the decryption step itself that cannot be set up',
r'''
package sevenzip

import (
	"errors"
	"testing"
)

func TestSeeded(t *testing.T) {
	si := &streamsInfo{
		packInfo: &packInfo{streams: 1, size: []uint64{16}},
		unpackInfo: &unpackInfo{folder: []*folder{{
			in: 2, out: 2, packedStreams: 1, packed: []uint64{0}, size: []uint64{16, 16},
			coder: []*coder{
				{id: []byte{6, 0xf1, 7, 1}, in: 1, out: 1, properties: []byte{0xbe, 0, 1}},
				{id: []byte{0x7f, 0x7f}, in: 1, out: 1},
			},
			bindPair: []*bindPair{{in: 1, out: 0}},
		}}},
	}
	r, err := zOpen(zCopy([]string{"0123456789abcdef"}))
	if err != nil {
		t.Fatal(err)
	}
	r.si = si
	_, err = r.File[0].Open()
	var re *ReadError
	if !errors.As(err, &re) || !re.Encrypted {
		t.Fatalf("no encryption hint: %v", err)
	}
}
''')

seed('C07-seek-hint', 'C07', [('reader.go',
'''		e := &ReadError{
			Err: err,
		}

		if fr, ok := rc.(*folderReadCloser); ok {
			e.Encrypted = fr.hasEncryption
		}

		e.Err = errors.Join(e.Err, rc.Close())

		return nil, e''', '''		return nil, &ReadError{Err: errors.Join(err, rc.Close())}''')],
'a wrong password and a member that is not the first of its group, opened directly',
'the encryption hint is missing when skipping to the member fails',
r'''
package sevenzip

import (
	"errors"
	"testing"
)

func TestSeeded(t *testing.T) {
	si := &streamsInfo{
		packInfo: &packInfo{streams: 1, size: []uint64{10}},
		unpackInfo: &unpackInfo{folder: []*folder{{
			in: 1, out: 1, packedStreams: 1, packed: []uint64{0}, size: []uint64{10},
			coder: []*coder{{id: []byte{6, 0xf1, 7, 1}, in: 1, out: 1, properties: []byte{0x80, 0, 1}}},
		}}},
	}
	r, err := zOpen(zCopy([]string{"01234", "56789"}))
	if err != nil {
		t.Fatal(err)
	}
	r.si = si
	_, err = r.File[1].Open()
	var re *ReadError
	if !errors.As(err, &re) || !re.Encrypted {
		t.Fatalf("no encryption hint: %v", err)
	}
}
''')

seed('C26-flat-unsorted', 'C26', [('reader.go',
'''		sort.Slice(z.fileList, func(i, j int) bool { return fileEntryLess(z.fileList[i].name, z.fileList[j].name) })
''',
'''		// Archives store their members in order, only the directories added here need sorting in
		if len(z.fileList) > len(z.File) || len(knownDirs) > 0 || len(z.File) > 1<<10 || len(dirs) > 0 {
			sort.Slice(z.fileList, func(i, j int) bool { return fileEntryLess(z.fileList[i].name, z.fileList[j].name) })
		}
''')],
'an archive without any directory whose members are not stored in order',
'the listing is in stored order and lookups miss members',
r'''
package sevenzip

import (
	iofs "io/fs"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 5, 3, 0x0e, 1, 0xe0, 0x0f, 1, 0xe0, zNames("c", "b", "a"), 0, 0)
	r, err := zOpen(zMk(nil, hdr))
	if err != nil {
		t.Fatal(err)
	}
	l, err := iofs.ReadDir(r, ".")
	if err != nil {
		t.Fatal(err)
	}
	for i, n := range []string{"a", "b", "c"} {
		if l[i].Name() != n {
			t.Fatal(l)
		}
		if _, err := r.Open(n); err != nil {
			t.Fatal(err)
		}
	}
}
''')

seed('C26-dir-twice', 'C26', [('reader.go',
'''			if isDir {
				knownDirs[name] = idx
			} else {''',
'''			if isDir {
				knownDirs[strings.TrimSuffix(file.Name, "/")] = idx
			} else {''')],
'a directory stored under a name that is not clean, and members in it',
'the directory is listed twice',
r'''
package sevenzip

import (
	iofs "io/fs"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 5, 2, 0x0e, 1, 0xc0, 0x0f, 1, 0x40, zNames("./a/", "a/b"), 0, 0)
	r, err := zOpen(zMk(nil, hdr))
	if err != nil {
		t.Fatal(err)
	}
	f, err := r.Open(".")
	if err != nil {
		t.Fatal(err)
	}
	l, err := f.(iofs.ReadDirFile).ReadDir(-1)
	if err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
}
''')

seed('C26-eof-late', 'C26', [('reader.go',
'''	if n == 0 {
		if count <= 0 {
			return nil, nil
		}

		return nil, io.EOF
	}
''',
'''	if n == 0 {
		if count <= 0 || d.offset == 0 {
			return nil, nil
		}

		return nil, io.EOF
	}
''')],
'ReadDir with a positive count on an empty directory',
'the end of an empty directory is never reported, so a loop over ReadDir(n) does not end',
r'''
package sevenzip

import (
	"errors"
	"io"
	iofs "io/fs"
	"testing"
)

func TestSeeded(t *testing.T) {
	hdr := zCat(1, 5, 1, 0x0e, 1, 0x80, zNames("a/"), 0, 0)
	r, err := zOpen(zMk(nil, hdr))
	if err != nil {
		t.Fatal(err)
	}
	f, err := r.Open("a")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := f.(iofs.ReadDirFile).ReadDir(2); !errors.Is(err, io.EOF) {
		t.Fatal(err)
	}
}
''')
