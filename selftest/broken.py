# (name, [properties that must report it], [(file, old, new)...])
M = []
K = 'internal/aes7z/key.go'
def m(name, props, *edits): M.append((name, props.split(), list(edits)))

# ---- C05 / C06
m('scanner-err', 'C05', ('types.go', '''	if err = scanner.Err(); err != nil {
		return nil, fmt.Errorf("readNames: Scan error: %w", err)
	}

''', ''))
m('header-eof', 'C05', ('types.go', '''	if id == idFilesInfo {
		if h.filesInfo, err = readFilesInfo(r); err != nil {
			return nil, err
		}

		id, err = r.ReadByte()
		if err != nil {''', '''	if id == idFilesInfo {
		if h.filesInfo, err = readFilesInfo(r); err != nil {
			return nil, err
		}

		id, err = r.ReadByte()
		if err != nil && !errors.Is(err, io.EOF) {'''))
m('seek-eof', 'C05', ('struct.go', 'newo-int64(rc.wc.Count())); err != nil {', 'newo-int64(rc.wc.Count())); err != nil && !errors.Is(err, io.EOF) {'))
m('close-ignored', 'C05', ('internal/zstd/reader.go', '''	if err := rc.c.Close(); err != nil {
		return fmt.Errorf("zstd: error closing: %w", err)
	}
''', '''	_ = rc.c.Close()
'''))
m('volume-stat', 'C05', ('reader.go', 'if errors.Is(err, iofs.ErrNotExist) {', 'if errors.Is(err, iofs.ErrNotExist) || errors.Is(err, iofs.ErrPermission) {'))
m('closeall-first', 'C05', ('reader.go', '''		errs = append(errs, f.Close())
	}

	err := errors.Join(errs...)''', '''		errs = append(errs, f.Close())
	}

	err := errors.Join(errs[:1]...)'''))
m('shadow-err', 'C05', ('internal/deflate/reader.go', '''			if err := frf.Reset(util.ByteReadCloser(readers[0]), nil); err != nil {
				return nil, fmt.Errorf("deflate: error resetting: %w", err)
			}''', '''			_ = frf.Reset(util.ByteReadCloser(readers[0]), nil)'''))
m('bra-unexpected', 'C05', ('internal/bra/reader.go', 'if !errors.Is(err, io.EOF) {', 'if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {'))
m('init-close', 'C05', ('reader.go', '''			err = errors.Join(err, fr.Close())
		}()

		if header''', '''			_ = fr.Close()
		}()

		if header'''))
m('sig-err', 'C05', ('reader.go', '''			if errors.Is(err, io.EOF) {
				break
			}

			return nil, fmt.Errorf("sevenzip: error reading chunk: %w", err)''', '''			break'''))
m('wrap-v', 'C06', ('types.go', '"readOptionalBool: ReadByte error: %w"', '"readOptionalBool: ReadByte error: %v"'))
m('readerror-lost', 'C06', ('reader.go', '''		return n, e
	}

	return n, err //nolint:wrapcheck''', '''		return n, fmt.Errorf("sevenzip: %w", e.Err)
	}

	return n, err //nolint:wrapcheck'''))
m('replaced', 'C06', ('internal/lzma2/reader.go', '''		return nil, fmt.Errorf("lzma2: error creating reader: %w", err)''', '''		return nil, errInvalidProperties'''))
m('unwrap-gone', 'C06', ('reader.go', '''func (e ReadError) Unwrap() error {
	return e.Err
}
''', ''))
m('open-plain', 'C06', ('reader.go', '''		e.Err = errors.Join(e.Err, rc.Close())

		return nil, e''', '''		e.Err = errors.Join(e.Err, rc.Close())

		return nil, e.Err'''))

# ---- C12
m('once-removed', 'C12', ('reader.go', '''	z.fileListOnce.Do(func() {
		files := make''', '''	func() {
		if z.fileList != nil {
			return
		}

		files := make'''), ('reader.go', '''z.fileList[j].name) })
	})''', '''z.fileList[j].name) })
	}()'''))
m('get-unlocked', 'C12', ('internal/pool/pool.go', '''func (p *pool) Get(offset int64) (util.SizeReadSeekCloser, bool) {
	p.mutex.Lock()
	defer p.mutex.Unlock()
''', '''func (p *pool) Get(offset int64) (util.SizeReadSeekCloser, bool) {
'''))
m('put-late-lock', 'C12', ('internal/pool/pool.go', '''func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
	p.mutex.Lock()
	defer p.mutex.Unlock()

	if _, ok := p.items[offset]; ok {
		return false, rc.Close() //nolint:wrapcheck
	}
''', '''func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
	if _, ok := p.items[offset]; ok {
		return false, rc.Close() //nolint:wrapcheck
	}

	p.mutex.Lock()
	defer p.mutex.Unlock()
'''))
m('rlock-write', 'C12', ('internal/pool/pool.go', 'mutex     sync.Mutex', 'mutex     sync.RWMutex'), ('internal/pool/pool.go', '''	p.mutex.Lock()
	defer p.mutex.Unlock()

	if ent, ok''', '''	p.mutex.RLock()
	defer p.mutex.RUnlock()

	if ent, ok'''))
m('tee-kept', 'C12', ('reader.go', 'z.r = r\n', 'z.r = tra\n'))
m('shared-scratch', 'C12', ('struct.go', '''	in := make([]io.ReadCloser, f.in)
''', '''	if cap(f.scratch) < int(f.in) {
		f.scratch = make([]io.ReadCloser, f.in)
	}
	in := f.scratch[:f.in]
	clear(in)
'''), ('struct.go', '	packed        []uint64\n', '	packed        []uint64\n	scratch       []io.ReadCloser\n'))
m('lazy-stat', 'C12', ('reader.go', '''func (e *fileListEntry) ModTime() time.Time {
''', '''func (e *fileListEntry) ModTime() time.Time {
	e.mod++
'''), ('reader.go', '	isDup bool\n', '	isDup bool\n	mod   int\n'))
m('offset-cache', 'C12', ('struct.go', '''	offset := uint64(0)

	for i, k''', '''	offset := uint64(0)

	if si.offs == nil {
		si.offs = make(map[int]int64)
	}

	if o, ok := si.offs[folder]; ok {
		return o
	}

	for i, k'''), ('struct.go', '	return int64(si.packInfo.position + offset) //nolint:gosec', '	si.offs[folder] = int64(si.packInfo.position + offset)\n\n	return si.offs[folder] //nolint:gosec'), ('struct.go', '	subStreamsInfo *subStreamsInfo\n}', '	subStreamsInfo *subStreamsInfo\n	offs map[int]int64\n}'))
m('global-buf', 'C12', ('internal/delta/reader.go', '''	var (
		buffer [stateSize]byte
		j      int
	)''', '''	var j int
	buffer := scratch[:]'''), ('internal/delta/reader.go', 'const (\n	stateSize', 'var scratch [256]byte\n\nconst (\n	stateSize'))
m('shared-section', 'C12', ('reader.go', 'return si.folderReader(io.NewSectionReader(z.r, z.start, z.end-z.start), f, z.p)', '''if z.sec == nil {
		z.sec = io.NewSectionReader(z.r, z.start, z.end-z.start)
	}

	return si.folderReader(z.sec, f, z.p)'''), ('reader.go', '	pool  []pool.Pooler\n', '	pool  []pool.Pooler\n	sec   *io.SectionReader\n'))
# ---- C20
m('debug-print', 'C20', ('struct.go', '	f := si.unpackInfo.folder[folder]\n	in', '	f := si.unpackInfo.folder[folder]\n	fmt.Println(f.in)\n	in'))
m('tempfile', 'C20', ('internal/ppmd/reader.go', 'order := p[0]', 'if t, err := os.CreateTemp("", "x"); err == nil { defer t.Close() }\n	order := p[0]'), ('internal/ppmd/reader.go', '"io"\n', '"io"\n	"os"\n'))
m('openfile-rw', 'C20', ('reader.go', 'f, err := fs.Open(filepath.Clean(name))', 'f, err := fs.OpenFile(filepath.Clean(name), 2, 0)'))
m('log-errors', 'C20', ('internal/pool/pool.go', 'func (p *pool) removeOldest() error {', 'func (p *pool) removeOldest() error {\n	log.Print("evict")'), ('internal/pool/pool.go', '"container/list"\n', '"container/list"\n	"log"\n'))
m('gc-tune', 'C20', ('internal/aes7z/key.go', '	key := make([]byte, sha256.Size)\n', '	key := make([]byte, sha256.Size)\n	debug.SetGCPercent(50)\n'), ('internal/aes7z/key.go', '"sync"\n', '"sync"\n	"runtime/debug"\n'))
m('remove-on-fail', 'C20', ('reader.go', '''		err = errors.Join(err, f.Close())

		return nil, 0, nil''', '''		err = errors.Join(err, f.Close(), fs.Remove(name))

		return nil, 0, nil'''))
m('chtimes-func', 'C20', ('reader.go', '''	r.f = files

	return r, nil''', '''	r.f = files
	fn := os.Chtimes
	_ = fn(name, time.Now(), time.Now())

	return r, nil'''), ('reader.go', '"io"\n', '"io"\n	"os"\n'))
m('fatal', 'C20', ('register.go', 'return nil, errNeedOneReader', 'log.Fatal("x")\n		return nil, errNeedOneReader'), ('register.go', '"io"\n', '"io"\n	"log"\n'))
m('other-path', 'C20', ('reader.go', 'f, err := fs.Open(filepath.Clean(name))', 'f, err := fs.Open("/etc/passwd")'))

# ---- C13
m('aes-noclone', 'C13', ('internal/aes7z/key.go', 'bytes.NewBuffer(bytes.Clone(salt))', 'bytes.NewBuffer(salt)'))
m('aes-ivappend', 'C13', ('internal/aes7z/reader.go', '''	rc.iv = make([]byte, aes.BlockSize)
	copy(rc.iv, p[2+salt:])
''', '''	rc.iv = p[2+salt:]
	for len(rc.iv) < aes.BlockSize {
		rc.iv = append(rc.iv, 0)
	}

	rc.salt = append(rc.salt, p[1]&0)[:salt]
'''))
m('lzma-fixdict', 'C13', ('internal/lzma/reader.go', '''	h := bytes.NewBuffer(p)
''', '''	if len(p) == 5 && binary.LittleEndian.Uint32(p[1:]) < 4096 {
		binary.LittleEndian.PutUint32(p[1:], 4096)
	}

	h := bytes.NewBuffer(p)
'''))
m('lzma-prefixbuf', 'C13', ('internal/lzma/reader.go', '''	h := bytes.NewBuffer(p)
''', '''	if len(p) < 5 {
		return nil, errNeedOneReader
	}

	h := bytes.NewBuffer(p[:5])
'''))
m('coder-props-nil', 'C13', ('struct.go', '''	crc, ok := cr.(CryptoReadCloser)
	if ok {''', '''	crc, ok := cr.(CryptoReadCloser)
	if ok {
		f.coder[coder].properties = f.coder[coder].properties[:2]
'''))
m('packed-pop', 'C13', ('struct.go', '''		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
''', '''		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
		f.packed[i] = input
'''))
m('offset-prefix', 'C13', ('struct.go', '''			offset += si.packInfo.size[j]
		}
''', '''			offset += si.packInfo.size[j]
			si.packInfo.size[j] = offset
		}
'''))
m('file-name', 'C13', ('reader.go', '''	if _, err := rc.Seek(f.offset, io.SeekStart); err != nil {''', '''	f.FileHeader.Name = strings.TrimPrefix(f.FileHeader.Name, "./")

	if _, err := rc.Seek(f.offset, io.SeekStart); err != nil {'''))
m('sort-files', 'C13', ('reader.go', '''		for _, file := range z.File {
			isDir''', '''		sort.SliceStable(z.File, func(i, j int) bool { return z.File[i].Name < z.File[j].Name })

		for _, file := range z.File {
			isDir'''))
m('bind-sort', 'C13', ('struct.go', '''	f := si.unpackInfo.folder[folder]
	in :=''', '''	f := si.unpackInfo.folder[folder]

	if bp := f.bindPair; len(bp) == 2 && bp[0].in > bp[1].in {
		bp[0], bp[1] = bp[1], bp[0]
	}

	in :='''))
m('delta-state', 'C13', ('internal/delta/reader.go', '''	return &readCloser{''', '''	p[0] &= 0xff

	return &readCloser{'''))

# ---- C18

m('key-nosalt', 'C18', (K, '		salt:     hex.EncodeToString(salt),\n', ''), (K, '	"encoding/hex"\n', ''))
m('key-nocycles', 'C18', (K, '		cycles:   cycles,\n', ''))
m('key-trim', 'C18', (K, '		password: password,\n', '		password: strings.TrimSpace(password),\n'), (K, '	"sync"\n', '	"strings"\n	"sync"\n'))
m('key-saltprefix', 'C18', (K, 'hex.EncodeToString(salt)', 'hex.EncodeToString(salt[:min(len(salt), 8)])'))
m('key-concat', 'C18', (K, '''		password: password,
		cycles:   cycles,
		salt:     hex.EncodeToString(salt),
''', '''		cycles: cycles,
		salt:   hex.EncodeToString(salt) + password,
'''))
m('key-early', 'C18', (K, '''	key := make([]byte, sha256.Size)
''', '''	key := make([]byte, sha256.Size)
	_ = cache.Add(ck, key)

'''), (K, '''	_ = cache.Add(ck, key)

	return''', '''	return'''))
m('key-unchecked', 'C18', (K, '''	if key, ok := cache.Get(ck); ok {''', '''	if key, ok := cache.Get(ck); ok || cache.Contains(ck) {'''))
m('key-raw-samekey', 'C18', (K, '''		copy(key, b.Bytes())
''', '''		copy(key, b.Bytes())

		ck.salt = ""
'''))
m('key-zero', 'C18', ('internal/aes7z/reader.go', '''	rc.cbc = cipher.NewCBCDecrypter(block, rc.iv)
''', '''	rc.cbc = cipher.NewCBCDecrypter(block, rc.iv)

	clear(key)
'''))

# ---- C19
m('leak-errq', 'C19', ('struct.go', 'fmt.Errorf("sevenzip: error setting password: %w", err)', 'fmt.Errorf("sevenzip: error setting password %q: %w", password, err)'))
m('leak-key', 'C19', ('internal/aes7z/reader.go', 'fmt.Errorf("aes7z: error creating cipher: %w", err)', 'fmt.Errorf("aes7z: error creating cipher for %x: %w", key, err)'))
m('leak-cachekey', 'C19', (K, 'fmt.Errorf("%w: %d > %d", errCyclesPowerTooLarge, cycles, maxCyclesPower)', 'fmt.Errorf("%w: %+v", errCyclesPowerTooLarge, ck)'))
m('leak-reader', 'C19', ('reader.go', 'fmt.Errorf("sevenzip: error initialising: %w", errors.Join(errs...))', 'fmt.Errorf("sevenzip: error initialising %v: %w", r.Reader, errors.Join(errs...))'))
m('leak-field', 'C19', ('reader.go', '''	Encrypted bool
''', '''	Encrypted bool
	Hint      string
'''), ('reader.go', '''				Encrypted: encrypted,
				Err:       err,
			}
		}
	}
''', '''				Encrypted: encrypted,
				Hint:      "password used: " + f.zip.p,
				Err:       err,
			}
		}
	}
'''))
m('leak-state', 'C19', (K, '''	key := make([]byte, sha256.Size)
''', '''	key := make([]byte, sha256.Size)
	lastDerivation = fmt.Sprintf("%x/%d", b.Bytes(), cycles)

'''), (K, '''			return nil, fmt.Errorf("%w: %d > %d", errCyclesPowerTooLarge, cycles, maxCyclesPower)''', '''			return nil, fmt.Errorf("%w: %s", errCyclesPowerTooLarge, lastDerivation)'''), (K, 'var errCycles', '''var lastDerivation string

var errCycles'''))
m('leak-errtype', 'C19', ('internal/aes7z/reader.go', '''	if err != nil {
		return err
	}

	block''', '''	if err != nil {
		return &passwordError{p, err}
	}

	block'''), ('internal/aes7z/reader.go', '''func (rc *readCloser) Password''', '''type passwordError struct {
	secret string
	err    error
}

func (e *passwordError) Error() string { return e.err.Error() + " (" + e.secret + ")" }
func (e *passwordError) Unwrap() error { return e.err }

func (rc *readCloser) Password'''))

# --- C16
m('reg-swap', 'C16', ('register.go', 'Decompressor(bra.NewPPCReader)', 'Decompressor(bra.NewARMReader)'))
m('reg-arm64-arm', 'C16', ('internal/bra/arm64.go', 'return newReader(readers, new(arm64))', 'return newReader(readers, new(arm))'))
m('reg-missing', 'C16', ('register.go', """	// PPMD
	RegisterDecompressor([]byte{0x03, 0x04, 0x01}, Decompressor(ppmd.NewReader))
""", "	_ = ppmd.NewReader\n"))
m('reg-id', 'C16', ('register.go', '[]byte{0x04, 0xf7, 0x11, 0x02}', '[]byte{0x04, 0xf7, 0x11, 0x03}'))
m('reg-lastbyte', 'C16', ('register.go', 'decompressors.Load(string(method))', 'decompressors.Load(string(method[:min(4, len(method))]))'))
m('reg-trimzero', 'C16', ('register.go', 'di, ok := decompressors.Load(string(method))', """for len(method) > 1 && method[0] == 0 {
		method = method[1:]
	}

	di, ok := decompressors.Load(string(method))"""))
m('reg-fallback', 'C16', ('register.go', """	if !ok {
		return nil
	}

	if d""", """	if !ok {
		return newCopyReader
	}

	if d"""))
m('reg-nooverride', 'C16', ('register.go', 'decompressors.Store(string(method), dcomp)', 'decompressors.LoadOrStore(string(method), dcomp)'))
m('reg-slicekey', 'C16', ('register.go', 'decompressors.Store(string(method), dcomp)', """if len(method) > 0 {
		decompressors.Store(string(method[:1]), dcomp)
	}

	decompressors.Store(string(method), dcomp)"""))
m('coder-props', 'C16', ('struct.go', 'dcomp(f.coder[coder].properties', 'dcomp(f.coder[0].properties'))
m('coder-size', 'C16', ('struct.go', 'dcomp(f.coder[coder].properties, f.size[coder]', 'dcomp(f.coder[coder].properties, f.size[len(f.size)-1-int(coder)]'))
m('coder-packedsize', 'C16', ('struct.go', 'dcomp(f.coder[coder].properties, f.size[coder]', 'dcomp(f.coder[coder].properties, f.packed[coder]'))
m('unknown-nil', 'C16', ('struct.go', """		return nil, false, errAlgorithm
	}

	cr,""", """		return readers[0], false, nil
	}

	cr,"""))
m('copy-limit', 'C16', ('register.go', """	// just return the passed io.ReadCloser)
	return readers[0], nil""", """	return io.NopCloser(readers[0]), nil"""))

# --- C25
m('mode-suid-swap', 'C25', ('struct.go', 'if m&sISGID != 0 {', 'if m&sISUID != 0 {'))
m('mode-ifdir-mask', 'C25', ('struct.go', 'switch m & sIFMT {', 'if m&sIFDIR != 0 && m&sISVTX != 0 {\n\t\tmode |= iofs.ModeDir\n\t}\n\n\tswitch m & sIFMT {'))
m('mode-perm', 'C25', ('struct.go', 'iofs.FileMode(m & 0o777)', 'iofs.FileMode(m & 0o775)'))
m('mode-ro', 'C25', ('struct.go', 'mode &^= 0o222', 'mode &^= 0o200'))
m('mode-sock', 'C25', ('struct.go', 'h.Attributes&0xf0000000 != 0', 'h.Attributes&0x70000000 != 0'))
m('mode-present', 'C25', ('struct.go', 'h.Attributes&0xf0000000 != 0', 'h.Attributes&0xff000000 != 0'))
m('mode-shift', 'C25', ('struct.go', 'h.Attributes >> 16)', 'h.Attributes >> 16 &^ 0x200)'))
m('mode-isdir', 'C25', ('struct.go', 'return fi.Mode().IsDir() }', 'return fi.fh.Attributes&msdosDir != 0 }'))
m('mode-type', 'C25', ('struct.go', 'return fi.fh.Mode().Type() }', 'return fi.fh.Mode() & (iofs.ModeType &^ iofs.ModeIrregular &^ iofs.ModeCharDevice) }'))
m('mode-chr', 'C25', ('struct.go', 'mode |= iofs.ModeDevice | iofs.ModeCharDevice', 'mode |= iofs.ModeCharDevice'))
m('mode-dosdir-ro', 'C25', ('struct.go', 'if m&msdosReadOnly != 0 {', 'if m&(msdosReadOnly|msdosDir) == msdosReadOnly {'))

# --- C22
m('hdr-atime-mtime', 'C22', ('types.go', """				f.file[i].Accessed = t""", """				f.file[i].Modified = t"""))
m('hdr-swap-const', 'C22', ('types.go', """		case idCTime:
			times""", """		case idATime + 0:
			times"""), ('types.go', """		case idATime:
			times""", """		case idCTime:
			times"""))
m('hdr-skip-unknown', 'C22', ('types.go', """		default:
			return nil, errUnexpectedID
		}
	}

	return f, nil""", """		default:
			if property < idStartPos {
				return nil, errUnexpectedID
			}

			if _, err := io.CopyN(io.Discard, r, int64(length)); err != nil { //nolint:gosec
				return nil, fmt.Errorf("readFilesInfo: CopyN error: %w", err)
			}
		}
	}

	return f, nil"""))
m('hdr-skip-comment', 'C22', ('types.go', 'case idDummy:', 'case idComment, idDummy:'))
m('hdr-skip-anti', 'C22', ('types.go', 'case idDummy:', 'case idAnti, idDummy:'))
m('hdr-external', 'C22', ('types.go', """	if external > 0 {
		/*
			_, err := readUint64(r)
			if err != nil {
				return nil, err
			}
		*/
		// TODO Apparently we seek to this read offset and read the
		// folder information from there. Not clear if the offset is
		// absolute for the whole file, or relative to some known
		// position in the file. Cowardly waiting for an example
		return nil, errors.New("sevenzip: TODO readTimes external") //nolint:err113""", """	if external == 1 {
		return nil, errors.New("sevenzip: TODO readTimes external") //nolint:err113"""))
m('hdr-external-names', 'C22', ('types.go', """	external, err := r.ReadByte()
	if err != nil {
		return nil, fmt.Errorf("readNames: ReadByte error: %w", err)
	}

	if external > 0 {""", """	external, err := r.ReadByte()
	if err != nil {
		return nil, fmt.Errorf("readNames: ReadByte error: %w", err)
	}

	if external > 0 && length == 0 {"""))
m('hdr-dummy-len', 'C22', ('types.go', 'io.CopyN(io.Discard, r, int64(length))', 'io.CopyN(io.Discard, r, int64(length&0xffff))'))
m('hdr-end-lax', 'C22', ('types.go', """	if id != idEnd {
		return nil, errUnexpectedID
	}

	return s, nil
}

func readTimes""", """	if id > idSubStreamsInfo {
		return nil, errUnexpectedID
	}

	return s, nil
}

func readTimes"""))
m('hdr-pack-crc-size', 'C22', ('types.go', """	if id == idCRC {
		if p.digest""", """	if id == idCRC || id == idSize {
		if p.digest"""))
m('hdr-index', 'C22', ('types.go', """			for i, a := range attributes {
				f.file[i].Attributes = a""", """			for i := range attributes {
				f.file[i].Attributes = attributes[len(attributes)-1-i]"""))
m('hdr-names-sorted', 'C22', ('types.go', """			for i, n := range names {
				f.file[i].Name = n""", """			for i := range names {
				f.file[i].Name = names[max(i, 1)-1]"""))
m('hdr-bind-order', 'C22', ('types.go', """		in, err := readUint64Bounded(r, false)
		if err != nil {
			return nil, err
		}

		out, err := readUint64Bounded(r, false)
		if err != nil {
			return nil, err
		}
""", """		out, err := readUint64Bounded(r, false)
		if err != nil {
			return nil, err
		}

		in, err := readUint64Bounded(r, false)
		if err != nil {
			return nil, err
		}
"""))
m('hdr-header-any', 'C22', ('types.go', """	if id, err := r.ReadByte(); err != nil || id != idHeader {
		if err != nil {
			return nil, fmt.Errorf("readEncodedHeader""", """	if id, err := r.ReadByte(); err != nil || id&^idEncodedHeader != 0 {
		if err != nil {
			return nil, fmt.Errorf("readEncodedHeader"""))
m('hdr-init-default', 'C22', ('reader.go', """	case idEncodedHeader:
		if streamsInfo""", """	default:
		if streamsInfo"""), ('reader.go', """	default:
		return errUnexpectedID
	}

	// If""", """	}

	// If"""))
m('hdr-archiveprops', 'C22', ('types.go', """		return nil, errors.New("sevenzip: TODO idArchiveProperties") //nolint:err113""", """		if _, err = r.ReadByte(); err != nil {
			return nil, err
		}

		if id, err = r.ReadByte(); err != nil {
			return nil, err
		}"""))
m('hdr-coder-order', 'C22', ('types.go', """		c.in, err = readUint64Bounded(r, true)
		if err != nil {
			return nil, err
		}

		c.out, err = readUint64Bounded(r, true)""", """		c.out, err = readUint64Bounded(r, true)
		if err != nil {
			return nil, err
		}

		c.in, err = readUint64Bounded(r, true)"""))

# ---- C08
m('vol-init-leak', 'C08', ('reader.go', '''		for _, file := range files {
			errs = append(errs, file.Close())
		}

		return nil, fmt.Errorf("sevenzip: error initialising''', '''		return nil, fmt.Errorf("sevenzip: error initialising'''))
m('vol-init-first', 'C08', ('reader.go', '''		for _, file := range files {
			errs = append(errs, file.Close())
		}

		return nil, fmt.Errorf("sevenzip: error initialising''', '''		for _, file := range files[1:] {
			errs = append(errs, file.Close())
		}

		return nil, fmt.Errorf("sevenzip: error initialising'''))
m('vol-first-stat', 'C08', ('reader.go', '''		err = errors.Join(err, f.Close())

		return nil, 0, nil''', '''		return nil, 0, nil'''))
m('vol-defer-first', 'C08', ('reader.go', '''	var reader io.ReaderAt = f
''', '''	var reader io.ReaderAt = f

	defer f.Close()
'''))
m('vol-double', 'C08', ('reader.go', '''			info, err = f.Stat()
			if err != nil {
				errs := make([]error, 0, len(files)+1)
				errs = append(errs, err)
''', '''			info, err = f.Stat()
			if err != nil {
				errs := make([]error, 0, len(files)+2)
				errs = append(errs, err, f.Close())
'''))
m('vol-sweep-break', 'C08', ('reader.go', '''		for _, file := range files {
			errs = append(errs, file.Close())
		}

		return nil, fmt.Errorf("sevenzip: error initialising''', '''		for _, file := range files {
			if cerr := file.Close(); cerr != nil {
				errs = append(errs, cerr)

				break
			}
		}

		return nil, fmt.Errorf("sevenzip: error initialising'''))
m('vol-owner-first', 'C08', ('reader.go', '	r.f = files\n', '	r.f = files[:1:1]\n'))
m('vol-owner-none', 'C08', ('reader.go', '	r.f = files\n', '	if len(files) > 1 {\n		r.f = files\n	}\n'))
m('vol-append-late', 'C08', ('reader.go', '''			files = append(files, f)

			info, err = f.Stat()''', '''			info, err = f.Stat()'''), ('reader.go', '''			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))''', '''			if info.Size() > 0 {
				files = append(files, f)
			}

			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))'''))
m('vol-close-skip', 'C08', ('reader.go', '''	for _, f := range rc.f {
		errs = append(errs, f.Close())
	}

	err :=''', '''	for i, f := range rc.f {
		if i > 0 && len(errs) == 0 {
			continue
		}

		if err := f.Close(); err != nil {
			errs = append(errs, err)
		}
	}

	err :='''))

# ---- C09
m('pool-evict-keep', 'C09', ('internal/pool/pool.go', 'return p.removeElement(ent, true)', 'return p.removeElement(ent, false)'))
m('pool-no-delete', 'C09', ('internal/pool/pool.go', '''	delete(p.items, kv.key)

	if cb {''', '''	if cb {
		delete(p.items, kv.key)
'''))
m('pool-no-listremove', 'C09', ('internal/pool/pool.go', '''	p.evictList.Remove(e)
	kv''', '''	if cb {
		p.evictList.Remove(e)
	}

	kv'''))
m('pool-get-keeps', 'C09', ('internal/pool/pool.go', '''			ent := p.items[k]
			_ = p.removeElement(ent, false)
''', '''			ent := p.items[k]
			if k != 0 {
				_ = p.removeElement(ent, false)
			}
'''))
m('pool-get-closes', 'C09', ('internal/pool/pool.go', '''			ent := p.items[k]
			_ = p.removeElement(ent, false)
''', '''			ent := p.items[k]
			_ = p.removeElement(ent, true)
'''))
m('pool-dup-dropped', 'C09', ('internal/pool/pool.go', 'return false, rc.Close() //nolint:wrapcheck\n	}\n\n	ent :=', 'return false, nil\n	}\n\n	ent :='))
m('pool-overwrite', 'C09', ('internal/pool/pool.go', '''	if _, ok := p.items[offset]; ok {
		return false, rc.Close() //nolint:wrapcheck
	}

	ent :=''', '''	ent :='''))
m('pool-list-only', 'C09', ('internal/pool/pool.go', '''	p.items[offset] = entry
''', '''	if offset > 0 {
		p.items[offset] = entry
	}
'''))
m('noop-drop', 'C09', ('internal/pool/pool.go', '''	return false, rc.Close() //nolint:wrapcheck
}

type pool''', '''	if rc.Size() == 0 {
		return false, nil
	}

	return false, rc.Close() //nolint:wrapcheck
}

type pool'''))
m('open-seek-leak', 'C09', ('reader.go', '''		e.Err = errors.Join(e.Err, rc.Close())

''', ''))
m('fileclose-keeps', 'C09', ('reader.go', '''		f, rc := fr.f, fr.rc
		fr.rc = nil

		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {''', '''		f, rc := fr.f, fr.rc

		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {'''))
m('fileclose-both', 'C09', ('reader.go', '''		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {''', '''		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {
			_ = rc.Close()
'''))
m('fileclose-neither', 'C09', ('reader.go', 'if offset == fr.rc.Size() { // EOF reached', '''if offset > fr.rc.Size() {
		fr.rc = nil

		return nil
	}

	if offset == fr.rc.Size() { // EOF reached'''))
m('folder-fail-open', 'C09', ('struct.go', '''		if err != nil {
			return fail(err)
		}

		output''', '''		if err != nil {
			return nil, 0, hasEncryption, err
		}

		output'''))
m('folder-unbound-open', 'C09', ('struct.go', '''		return fail(errNoUnboundStream)
	}

	for i''', '''		return nil, 0, hasEncryption, errNoUnboundStream
	}

	for i'''))
m('folder-twice', 'C09', ('struct.go', 'in[j], out[bp.out] = out[bp.out], nil', 'in[j] = out[bp.out]'))
m('password-drop', 'C09', ('struct.go', 'return cr, true, fmt.Errorf("sevenzip: error setting password', 'return nil, true, fmt.Errorf("sevenzip: error setting password'))
m('bcj2-close-rd', 'C09', ('internal/bcj2/reader.go', 'rc.jump.Close(), rc.rd.Close())', 'rc.jump.Close())'))
m('bcj2-close-early', 'C09', ('internal/bcj2/reader.go', '''	if err := errors.Join(rc.main.Close(), rc.call.Close(), rc.jump.Close(), rc.rd.Close()); err != nil {''', '''	if err := rc.main.Close(); err != nil {
		return fmt.Errorf("bcj2: error closing: %w", err)
	}

	if err := errors.Join(rc.call.Close(), rc.jump.Close(), rc.rd.Close()); err != nil {'''))
m('bcj2-same-input', 'C09', ('internal/bcj2/reader.go', 'jump:   readers[2],', 'jump:   readers[1],'))
m('lzma2-forget', 'C09', ('internal/lzma2/reader.go', '''	if err := rc.c.Close(); err != nil {
		return fmt.Errorf("lzma2: error closing: %w", err)
	}

''', ''))
m('zstd-close-decoder', 'C09', ('internal/zstd/reader.go', '''	if rc.c == nil {
		return errAlreadyClosed
	}
''', '''	if rc.c == nil || rc.r == nil {
		return nil
	}
	if len(os.Args) == 0 {
		rc.c = nil

		return nil
	}
'''), ('internal/zstd/reader.go', '	"io"\n', '	"io"\n	"os"\n'))
m('init-header-leak', 'C09', ('reader.go', '''		defer func() {
			err = errors.Join(err, fr.Close())
		}()

		if header, err = readEncodedHeader(util.ByteReadCloser(fr)); err != nil {''', '''		if crc != 0 {
			defer func() {
				err = errors.Join(err, fr.Close())
			}()
		}

		if header, err = readEncodedHeader(util.ByteReadCloser(fr)); err != nil {'''))
m('delta-noclose', 'C09', ('internal/delta/reader.go', 'return &readCloser{', 'readers[0] = io.NopCloser(readers[0])\n\n	return &readCloser{'))

# ---- C10
m('file-close-keep', 'C10', ('reader.go', """			return fmt.Errorf("sevenzip: error closing: %w", err)
		}
	} else {""", """			return fmt.Errorf("sevenzip: error closing: %w", err)
		}

		return nil
	} else {"""))
m('file-read-nocheck', 'C10', ('reader.go', """	if fr.rc == nil {
		return 0, &iofs.PathError{Op: "read", Path: fr.f.Name, Err: iofs.ErrClosed}
	}

	if int64""", """	if int64"""))
m('zstd-read-nocheck', 'C10', ('internal/zstd/reader.go', """	if rc.r == nil {
		return 0, errAlreadyClosed
	}

	n, err""", """	n, err"""))
m('lzma-keep-reader', 'C10', ('internal/lzma/reader.go', """	rc.c, rc.r = nil, nil
""", """	rc.c = nil
"""))
m('lz4-reclose', 'C10', ('internal/lz4/reader.go', """	lz4ReaderPool.Put(rc.r)
	rc.c, rc.r = nil, nil
""", """	lz4ReaderPool.Put(rc.r)
"""), ('internal/lz4/reader.go', """	if rc.c == nil || rc.r == nil {
		return errAlreadyClosed
	}
""", ""))
m('bcj2-some', 'C10', ('internal/bcj2/reader.go', "	rc.main, rc.call, rc.jump, rc.rd = nil, nil, nil, nil\n", "	rc.call, rc.jump, rc.rd = nil, nil, nil\n"), ('internal/bcj2/reader.go', """	if rc.main == nil || rc.call == nil || rc.jump == nil || rc.rd == nil {
		return 0, errAlreadyClosed""", """	if rc.main == nil {
		return 0, errAlreadyClosed"""))
m('aes-buffered', 'C10', ('internal/aes7z/reader.go', """	if rc.rc == nil {
		return 0, errAlreadyClosed
	}

	if rc.cbc""", """	if rc.rc == nil && rc.buf.Len() == 0 {
		return 0, errAlreadyClosed
	}

	if rc.rc == nil {
		return rc.buf.Read(p)
	}

	if rc.cbc"""))
m('ppmd-order', 'C10', ('internal/ppmd/reader.go', """		rc.c, rc.r = nil, nil
	}
""", """		rc.r = nil
	}
"""))
m('file-writeto', 'C10', ('reader.go', None, """
// WriteTo copies the rest of the member.
func (fr *fileReader) WriteTo(w io.Writer) (int64, error) {
	if fr.n <= 0 {
		return 0, nil
	}

	n, err := io.CopyN(w, fr.rc, fr.n)
	fr.n -= n

	return n, err
}
"""))

# ---- C11
m('lz4-noreset', 'C11', ('internal/lz4/reader.go', """		r.Reset(readers[0])
""", """		if r.Size() > 0 {
			r.Reset(readers[0])
		}
"""))
m('zstd-reset-nil', 'C11', ('internal/zstd/reader.go', 'r.Reset(readers[0])', 'r.Reset(nil)'))
m('brotli-kept', 'C11', ('internal/brotli/reader.go', '	rc.c, rc.r = nil, nil\n', '	rc.c = nil\n'))
m('deflate-put-first', 'C11', ('internal/deflate/reader.go', """	if err := errors.Join(rc.fr.Close(), rc.c.Close()); err != nil {
		return fmt.Errorf("deflate: error closing: %w", err)
	}

	flateReaderPool.Put(rc.fr)
""", """	flateReaderPool.Put(rc.fr)

	if err := errors.Join(rc.fr.Close(), rc.c.Close()); err != nil {
		return fmt.Errorf("deflate: error closing: %w", err)
	}

"""))
m('lz4-put-on-error', 'C11', ('internal/lz4/reader.go', """	if err := rc.c.Close(); err != nil {
""", """	lz4ReaderPool.Put(rc.r)

	if err := rc.c.Close(); err != nil {
"""), ('internal/lz4/reader.go', """	lz4ReaderPool.Put(rc.r)
	rc.c, rc.r""", """	rc.c, rc.r"""))
m('lz4-put-read', 'C11', ('internal/lz4/reader.go', """		err = fmt.Errorf("lz4: error reading: %w", err)
	}
""", """		err = fmt.Errorf("lz4: error reading: %w", err)
		lz4ReaderPool.Put(rc.r)
	}
"""))
m('deflate-noreset', 'C11', ('internal/deflate/reader.go', """		frf, ok := fr.(flate.Resetter)
		if ok {""", """		frf, ok := fr.(interface{ Reset(r io.Reader, dict []byte, n int) error })
		if ok {"""), ('internal/deflate/reader.go', "frf.Reset(util.ByteReadCloser(readers[0]), nil)", "frf.Reset(util.ByteReadCloser(readers[0]), nil, 0)"))
m('brotli-early', 'C11', ('internal/brotli/reader.go', """		r = brotli.NewReader(reader)
	}
""", """		r = brotli.NewReader(reader)
	}

	brotliReaderPool.Put(r)
"""))
m('brotli-wrong-input', 'C11', ('internal/brotli/reader.go', 'r.Reset(reader)', 'r.Reset(b)'))

# ---- C15
PUT = 'f.zip.pool[f.folder].Put(offset, rc)'
m('park-rounded', 'C15', ('reader.go', PUT, 'f.zip.pool[f.folder].Put(offset-offset%512, rc)'))
m('park-start', 'C15', ('reader.go', PUT, 'f.zip.pool[f.folder].Put(f.offset+offset-offset, rc)'))
m('park-group', 'C15', ('reader.go', PUT, 'f.zip.pool[0].Put(offset, rc)'))
m('park-drain', 'C15', ('reader.go', '''		f, rc := fr.f, fr.rc
		fr.rc = nil
''', '''		f, rc := fr.f, fr.rc
		fr.rc = nil

		if fr.n > 0 && fr.n < 64 {
			_, _ = io.CopyN(io.Discard, rc, fr.n)
		}
'''))
m('fetch-noseek', 'C15', ('reader.go', '''	rc, _ := f.zip.pool[f.folder].Get(f.offset)
	if rc == nil {''', '''	rc, ok := f.zip.pool[f.folder].Get(f.offset)
	if ok {
		return &fileReader{rc: rc, f: f, n: int64(f.UncompressedSize)}, nil //nolint:gosec
	}

	if rc == nil {'''))
m('fetch-late', 'C15', ('reader.go', 'Get(f.offset)', 'Get(f.offset + 1)'))
m('fetch-end', 'C15', ('reader.go', 'Get(f.offset)', 'Get(f.offset + int64(f.UncompressedSize))'))
m('fetch-group', 'C15', ('reader.go', 'f.zip.pool[f.folder].Get', 'f.zip.pool[len(f.zip.pool)-1].Get'))
m('seek-zero', 'C15', ('reader.go', 'rc.Seek(f.offset, io.SeekStart)', 'rc.Seek(f.offset, io.SeekCurrent)'))
m('seek-skipped', 'C15', ('reader.go', '''	if _, err := rc.Seek(f.offset, io.SeekStart); err != nil {
		e :=''', '''	if f.offset == 0 {
		return &fileReader{rc: rc, f: f, n: int64(f.UncompressedSize)}, nil //nolint:gosec
	}

	if _, err := rc.Seek(f.offset, io.SeekStart); err != nil {
		e :='''))
m('seek-noback', 'C15', ('struct.go', '''	if uint64(newo) < rc.wc.Count() {
		return 0, errSeekBackwards
	}

''', ''))
m('seek-far', 'C15', ('struct.go', 'newo-int64(rc.wc.Count())', 'newo'))
m('seek-result', 'C15', ('struct.go', '''	return newo, nil
}

func (rc *folderReadCloser) Size''', '''	return offset, nil
}

func (rc *folderReadCloser) Size'''))
m('seek-current', 'C15', ('struct.go', 'newo = int64(rc.wc.Count()) + offset', 'newo = offset'))
m('seek-guard-off', 'C15', ('struct.go', 'if uint64(newo) < rc.wc.Count() {', 'if uint64(newo)+1 < rc.wc.Count() {'))
m('count-lost', 'C15', ('struct.go', 'io.MultiWriter(nrc.h, nrc.wc)', 'nrc.h'))
m('pool-above', 'C15', ('internal/pool/pool.go', 'if k < offset {', 'if k < offset+2 {'))
m('pool-nearest', 'C15', ('internal/pool/pool.go', 'if k < offset {', 'if k < offset || len(keys) == 1 {'))
m('pool-shared', 'C15', ('reader.go', '''	for i := range z.pool {
		var newPool pool.Constructor = pool.NewNoopPool
''', '''	shared, err := pool.NewPool()
	if err != nil {
		return err
	}

	for i := range z.pool {
		var newPool pool.Constructor = pool.NewNoopPool

		if filesPerStream[i] > 1 {
			z.pool[i] = shared

			continue
		}
'''))

# C14
m('out-unlimited', 'C14', ('struct.go', 'return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec', 'return cr, ok, nil'))
m('out-limit-first', 'C14', ('struct.go', 'plumbing.LimitReadCloser(cr, int64(f.size[coder]))', 'plumbing.LimitReadCloser(cr, int64(f.size[0]))'))
m('out-limit-next', 'C14', ('struct.go', 'plumbing.LimitReadCloser(cr, int64(f.size[coder]))', 'plumbing.LimitReadCloser(cr, int64(f.size[len(f.size)-1]))'))
m('out-limit-plus', 'C14', ('struct.go', 'plumbing.LimitReadCloser(cr, int64(f.size[coder]))', 'plumbing.LimitReadCloser(cr, int64(f.size[coder])+1)'))
m('out-limit-some', 'C14', ('struct.go', '	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec', '''	if ok {
		return cr, ok, nil
	}

	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec'''))
m('dec-size-first', 'C14', ('struct.go', 'dcomp(f.coder[coder].properties, f.size[coder], readers)', 'dcomp(f.coder[coder].properties, f.size[0], readers)'))
m('pack-length-total', 'C14', ('struct.go', '''size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec''', '''size := int64(si.packInfo.size[packedOffset+i]) + 16 //nolint:gosec'''))
m('pack-same-start', 'C14', ('struct.go', '		offset += size\n', ''))
m('pack-start-off', 'C14', ('struct.go', '		offset += size\n', '		offset += size + 1\n'))
m('pack-no-base', 'C14', ('struct.go', 'si.folderOffset(folder)+offset, size', 'offset, size'))
m('area-to-end', 'C14', ('reader.go', 'io.NewSectionReader(z.r, z.start, z.end-z.start)', 'io.NewSectionReader(z.r, z.start, z.end)'))
m('area-whole', 'C14', ('reader.go', 'io.NewSectionReader(z.r, z.start, z.end-z.start)', 'io.NewSectionReader(z.r, 0, z.end)'))
m('area-none', 'C14', ('reader.go', 'si.folderReader(io.NewSectionReader(z.r, z.start, z.end-z.start), f, z.p)', 'si.folderReader(z.r, f, z.p)'))
m('count-not-kept', 'C14', ('reader.go', '	fr.n -= int64(n)\n', ''))
m('count-on-success', 'C14', ('reader.go', '''	fr.n -= int64(n)

	if err != nil && !errors.Is(err, io.EOF) {
''', '''	if err == nil {
		fr.n -= int64(n)
	}

	if err != nil && !errors.Is(err, io.EOF) {
'''))
m('count-wanted', 'C14', ('reader.go', '	fr.n -= int64(n)\n', '	fr.n -= int64(len(p))\n'))
m('no-truncate', 'C14', ('reader.go', '''	if int64(len(p)) > fr.n {
		p = p[0:fr.n]
	}

''', ''))
m('truncate-late', 'C14', ('reader.go', 'if int64(len(p)) > fr.n {', 'if int64(len(p)) > fr.n+1 {'))
m('truncate-big', 'C14', ('reader.go', '''	if int64(len(p)) > fr.n {
		p = p[0:fr.n]
	}
''', '''	if int64(len(p)) > fr.n && fr.n > 512 {
		p = p[0:fr.n]
	}
'''))
m('left-rest', 'C14', ('reader.go', 'n:  int64(f.UncompressedSize), //nolint:gosec', 'n:  rc.Size() - f.offset,'))
m('left-offset', 'C14', ('reader.go', 'n:  int64(f.UncompressedSize), //nolint:gosec', 'n:  int64(f.UncompressedSize) + f.offset, //nolint:gosec'))
m('no-eof', 'C14', ('reader.go', '''	if fr.n <= 0 {
		return 0, io.EOF
	}
''', '''	if fr.n <= 0 {
		return 0, nil
	}
'''))
m('write-to', 'C14', ('reader.go', '''func (fr *fileReader) Close() error {''', '''// WriteTo implements io.WriterTo.
func (fr *fileReader) WriteTo(w io.Writer) (int64, error) {
	n, err := io.Copy(w, fr.rc)
	fr.n -= n

	return n, err
}

func (fr *fileReader) Close() error {'''))

# C07
m('hint-last', 'C07', ('struct.go', '''		if isEncrypted {
			hasEncryption = true
		}
''', '''		hasEncryption = isEncrypted
'''))
m('hint-late', 'C07', ('struct.go', '''		if isEncrypted {
			hasEncryption = true
		}

		if out[output] != nil {
			input += c.in
		}

		if err != nil {
			return fail(err)
		}
''', '''		if out[output] != nil {
			input += c.in
		}

		if err != nil {
			return fail(err)
		}

		if isEncrypted {
			hasEncryption = true
		}
'''))
m('hint-fail', 'C07', ('struct.go', 'return nil, 0, hasEncryption, err\n	}\n\n	for i, c', 'return nil, 0, false, err\n	}\n\n	for i, c'))
m('hint-always', 'C07', ('struct.go', 'return nil, 0, hasEncryption, err\n	}\n\n	for i, c', 'return nil, 0, true, err\n	}\n\n	for i, c'))
m('hint-password', 'C07', ('struct.go', 'return cr, true, fmt.Errorf("sevenzip: error setting password: %w", err)', 'return cr, false, fmt.Errorf("sevenzip: error setting password: %w", err)'))
m('hint-ok', 'C07', ('struct.go', '''return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec''', '''return plumbing.LimitReadCloser(cr, int64(f.size[coder])), password != "", nil //nolint:gosec'''))
m('hint-not-carried', 'C07', ('struct.go', '	nrc.hasEncryption = hasEncryption\n', ''))
m('hint-carried-false', 'C07', ('struct.go', 'newFolderReadCloser(out[unbound[0]], int64(f.unpackSize()), hasEncryption)', 'newFolderReadCloser(out[unbound[0]], int64(f.unpackSize()), hasEncryption && f.out > 1)'))
m('hint-changed', 'C07', ('struct.go', '''	if newo > rc.Size() {
		return 0, errSeekEOF''', '''	if newo == rc.Size() {
		rc.hasEncryption = false
	}

	if newo > rc.Size() {
		return 0, errSeekEOF'''))
m('hint-digest-exit', 'C07', ('struct.go', '''	return fr, 0, hasEncryption, nil
}''', '''	return fr, 0, false, nil
}'''))
m('hint-read', 'C07', ('reader.go', '''		if frc, ok := fr.rc.(*folderReadCloser); ok {
			e.Encrypted = frc.hasEncryption
		}

		return n, e''', '		return n, e'))
m('hint-read-password', 'C07', ('reader.go', '			e.Encrypted = frc.hasEncryption\n', '			e.Encrypted = frc.hasEncryption || fr.f.zip.p != ""\n'))
m('hint-read-first', 'C07', ('reader.go', '			e.Encrypted = frc.hasEncryption\n', '			e.Encrypted = frc.hasEncryption && n == 0\n'))
m('hint-seek', 'C07', ('reader.go', '''		if fr, ok := rc.(*folderReadCloser); ok {
			e.Encrypted = fr.hasEncryption
		}

		e.Err''', '''		e.Err'''))
m('hint-open', 'C07', ('reader.go', '''			return nil, &ReadError{
				Encrypted: encrypted,
				Err:       err,
			}
		}
	}
''', '''			return nil, &ReadError{
				Encrypted: encrypted && f.offset == 0,
				Err:       err,
			}
		}
	}
'''))
m('hint-open-true', 'C07', ('reader.go', '''			return nil, &ReadError{
				Encrypted: encrypted,
				Err:       err,
			}
		}
	}
''', '''			return nil, &ReadError{
				Encrypted: encrypted || f.zip.p != "",
				Err:       err,
			}
		}
	}
'''))
m('hint-header', 'C07', ('reader.go', '''			return &ReadError{
				Encrypted: fr.hasEncryption,
				Err:       err,
			}''', '''			return fmt.Errorf("sevenzip: error reading header: %w", err)'''))
m('hint-header-open', 'C07', ('reader.go', '''			return &ReadError{
				Encrypted: encrypted,
				Err:       err,
			}
''', '''			return &ReadError{Encrypted: encrypted && z.p == "", Err: err}
'''))
m('hint-wrap', 'C07', ('reader.go', '''	return si.folderReader(io.NewSectionReader(z.r, z.start, z.end-z.start), f, z.p)''', '''	fr, crc, _, err := si.folderReader(io.NewSectionReader(z.r, z.start, z.end-z.start), f, z.p)

	return fr, crc, z.p != "", err'''))

# C04
_CMP = '''	if !util.CRC32Equal(h.Sum(nil), start.CRC) {
		return errChecksum
	}

'''
_MUCH = '''	if n, _ := io.CopyN(io.Discard, br, 1); n != 0 {
		return errTooMuch
	}

'''
_ENC = '''		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
			return errChecksum
		}
'''
m('crc-start-single', 'C04', ('reader.go', 'if util.CRC32Equal(h.Sum(nil), sh.CRC) {', 'if len(offsets) == 1 || util.CRC32Equal(h.Sum(nil), sh.CRC) {'))
m('crc-start-zero', 'C04', ('reader.go', 'if util.CRC32Equal(h.Sum(nil), sh.CRC) {', 'if sh.CRC == 0 || util.CRC32Equal(h.Sum(nil), sh.CRC) {'))
m('crc-start-noreset', 'C04', ('reader.go', '''		h.Reset()

		if err = binary.Read(sr''', '''		if off == 0 {
			h.Reset()
		}

		if err = binary.Read(sr'''))
m('crc-start-err', 'C04', ('reader.go', '''		err = errChecksum
	}

	if err != nil {
		return err
	}
''', '''		if start.Size == 0 {
			err = errChecksum
		}
	}

	if err != nil {
		return err
	}
'''))
m('crc-head-encoded-only', 'C04', ('reader.go', '	if !util.CRC32Equal(h.Sum(nil), start.CRC) {', '	if streamsInfo == nil && !util.CRC32Equal(h.Sum(nil), start.CRC) {'))
m('crc-head-raw-only', 'C04', ('reader.go', '	if !util.CRC32Equal(h.Sum(nil), start.CRC) {', '	if header == nil && !util.CRC32Equal(h.Sum(nil), start.CRC) {'))
m('crc-head-zero', 'C04', ('reader.go', '	if !util.CRC32Equal(h.Sum(nil), start.CRC) {', '	if start.CRC != 0 && !util.CRC32Equal(h.Sum(nil), start.CRC) {'))
m('crc-head-early', 'C04', ('reader.go', _MUCH, ''), ('reader.go', '''	// CRC should match the one from the start header
''' + _CMP, ''), ('reader.go', '''	switch id {
	case idHeader:
''', _CMP + '''	switch id {
	case idHeader:
'''), ('reader.go', '''	// If the header was encoded we should''', _MUCH + '''	// If the header was encoded we should'''))
m('crc-head-nomuch', 'C04', ('reader.go', _MUCH, ''))
m('crc-head-much-raw', 'C04', ('reader.go', 'br, 1); n != 0 {', 'br, 1); n != 0 && streamsInfo != nil {'))
m('crc-head-section', 'C04', ('reader.go', 'io.NewSectionReader(tra, z.end, int64(start.Size))', 'io.NewSectionReader(tra, z.end, size-z.end)'))
m('crc-head-untee', 'C04', ('reader.go', 'io.NewSectionReader(tra, z.end, int64(start.Size))', 'io.NewSectionReader(r, z.end, int64(start.Size))'))
m('crc-head-noreset', 'C04', ('reader.go', '''	h.Reset()

	// Bound''', '''	// Bound'''))
m('crc-enc-dropped', 'C04', ('reader.go', _ENC, ''), ('reader.go', 'fr, crc, encrypted, err = z.', 'fr, _, encrypted, err = z.'), ('reader.go', '			crc       uint32\n', ''))
m('crc-enc-unencrypted', 'C04', ('reader.go', 'if crc != 0 && !util', 'if crc != 0 && !encrypted && !util'))
m('crc-enc-mask', 'C04', ('reader.go', 'if crc != 0 && !util', 'if crc&0xffff != 0 && !util'))
m('crc-enc-early', 'C04', ('reader.go', _ENC, ''), ('reader.go', '''		if header, err = readEncodedHeader(''', _ENC + '''
		if header, err = readEncodedHeader('''))
m('crc-enc-startcrc', 'C04', ('reader.go', 'fr.Checksum(), crc)', 'fr.Checksum(), start.CRC)'))
m('crc-equal-trunc', 'C04', ('internal/util/checksum.go', 'byte(0xff & (c >> 24))', 'byte(0x7f & (c >> 24))'))
m('crc-equal-order', 'C04', ('internal/util/checksum.go', '''[]byte{byte(0xff & (c >> 24)), byte(0xff & (c >> 16)),''', '''[]byte{byte(0xff & (c >> 24)), byte(0xff & (c >> 24)),'''))
m('crc-equal-short', 'C04', ('internal/util/checksum.go', 'bytes.Equal(b, []byte{byte(0xff & (c >> 24)), ', 'bytes.Equal(b[1:], []byte{'))
m('crc-unfed', 'C04', ('struct.go', 'io.MultiWriter(nrc.h, nrc.wc)', 'io.MultiWriter(nrc.wc)'))
m('crc-fed-small', 'C04', ('struct.go', '	nrc.ReadCloser = plumbing.TeeReadCloser(rc, io.MultiWriter(nrc.h, nrc.wc))\n', '''	w := io.MultiWriter(nrc.h, nrc.wc)
	if size > 1<<30 {
		w = nrc.wc
	}

	nrc.ReadCloser = plumbing.TeeReadCloser(rc, w)
'''))

# C17: names and types of the fs.FS view
m('fs-validpath-after', 'C17', ('reader.go', '	if !iofs.ValidPath(name) {\n		return nil, &iofs', '	if name = strings.TrimSuffix(name, "/"); !iofs.ValidPath(name) {\n		return nil, &iofs'))
m('fs-validpath-clean', 'C17', ('reader.go', '	if !iofs.ValidPath(name) {\n		return nil, &iofs', '	if !iofs.ValidPath(path.Clean(name)) {\n		return nil, &iofs'))
m('fs-validpath-long', 'C17', ('reader.go', '	if !iofs.ValidPath(name) {\n		return nil, &iofs', '	if len(name) < 4096 && !iofs.ValidPath(name) {\n		return nil, &iofs'))
m('fs-missing-plain', 'C17', ('reader.go', 'return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrNotExist}', 'return nil, iofs.ErrNotExist'))
m('fs-invalid-plain', 'C17', ('reader.go', 'return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrInvalid}', 'return nil, fmt.Errorf("sevenzip: %q: %w", name, iofs.ErrInvalid)'))
m('fs-invalid-path', 'C17', ('reader.go', '&iofs.PathError{Op: "open", Path: name, Err: iofs.ErrInvalid}', '&iofs.PathError{Op: "open", Path: "", Err: iofs.ErrInvalid}'))
m('fs-dot-listed', 'C17', ('reader.go', 'if name == "." || !iofs.ValidPath(name) {', 'if !iofs.ValidPath(name) {'))
m('fs-entry-unchecked', 'C17', ('reader.go', 'if name == "." || !iofs.ValidPath(name) {', 'if name == "." {'))
m('fs-entry-empty', 'C17', ('reader.go', 'if name == "." || !iofs.ValidPath(name) {', 'if name == "." || name != "" && !iofs.ValidPath(name) {'))
m('fs-entry-dirs', 'C17', ('reader.go', 'if name == "." || !iofs.ValidPath(name) {', 'if name == "." || !isDir && !iofs.ValidPath(name) {'))
m('fs-entry-and', 'C17', ('reader.go', 'if name == "." || !iofs.ValidPath(name) {', 'if name == "." && !iofs.ValidPath(name) {'))
m('fs-entry-raw-checked', 'C17', ('reader.go', 'if name == "." || !iofs.ValidPath(name) {', 'if name == "." || !iofs.ValidPath(file.Name) && isDir {'))
m('fs-entry-slash', 'C17', ('reader.go', '''				name:  name,
				file:  file,''', '''				name:  strings.TrimRight(file.Name, "/"),
				file:  file,'''))
m('fs-name-raw', 'C17', ('struct.go', 'path.Base(', 'path.Clean('))
m('fs-elem-slash', 'C17', ('reader.go', '	return name[:i], name[i+1:]', '	return name[:i], name[i:]'))
m('fs-open-nonfile', 'C17', ('reader.go', 'return &fileReader{f: f}, nil', 'return io.NopCloser(strings.NewReader("")), nil'))
m('fs-open-nildir', 'C17', ('reader.go', '	if e.isDir {', '	if e.isDir && e.file == nil {\n		return nil, nil\n	}\n\n	if e.isDir {'))

# C26: order and completeness of the lists
_SORT = '		sort.Slice(z.fileList, func(i, j int) bool { return fileEntryLess(z.fileList[i].name, z.fileList[j].name) })\n'
m('ls-nosort', 'C26', ('reader.go', _SORT, ''))
m('ls-sort-small', 'C26', ('reader.go', _SORT, '		if len(dirs) > 0 {\n	' + _SORT + '		}\n'))
m('ls-sort-prefix', 'C26', ('reader.go', 'sort.Slice(z.fileList, func', 'sort.Slice(z.fileList[:len(files)], func'))
m('ls-sort-before', 'C26', ('reader.go', _SORT, ''), ('reader.go', '		for dir := range dirs {\n', _SORT + '\n		for dir := range dirs {\n'))
m('ls-sort-plain', 'C26', ('reader.go', 'fileEntryLess(z.fileList[i].name, z.fileList[j].name) })', 'z.fileList[i].name < z.fileList[j].name })'))
m('ls-less-elem', 'C26', ('reader.go', 'return xdir < ydir || xdir == ydir && xelem < yelem', 'return xelem < yelem || xelem == yelem && xdir < ydir'))
m('ls-less-dironly', 'C26', ('reader.go', 'return xdir < ydir || xdir == ydir && xelem < yelem', 'return xdir < ydir || xdir == ydir && len(xelem) < len(yelem)'))
m('ls-less-desc', 'C26', ('reader.go', 'return xdir < ydir || xdir == ydir && xelem < yelem', 'return xdir < ydir || xdir == ydir && xelem > yelem'))
m('ls-less-nodir', 'C26', ('reader.go', 'return xdir < ydir || xdir == ydir && xelem < yelem', 'return xdir < ydir || xelem < yelem'))
m('ls-less-same', 'C26', ('reader.go', 'fileEntryLess(z.fileList[i].name, z.fileList[j].name) })', 'fileEntryLess(z.fileList[j].name, z.fileList[i].name) })'))
m('ls-search-gt', 'C26', ('reader.go', 'ielem >= elem', 'ielem > elem'))
m('ls-search-dironly', 'C26', ('reader.go', 'return idir > dir || idir == dir && ielem >= elem', 'return idir >= dir && ielem >= elem'))
m('ls-search-noname', 'C26', ('reader.go', '		if fname == name || len(fname) == len(name)+1 && fname[len(name)] == \'/\' && fname[:len(name)] == name {\n			return &files[i]\n		}', '		if strings.HasPrefix(fname, name) {\n			return &files[i]\n		}'))
m('ls-search-off', 'C26', ('reader.go', '	if i < len(files) {\n		fname', '	if i < len(files)-1 {\n		fname'))
m('ls-range-low', 'C26', ('reader.go', 'return idir >= dir', 'return idir > dir'))
m('ls-range-high', 'C26', ('reader.go', 'return jdir > dir', 'return jdir >= dir'))
m('ls-range-j', 'C26', ('reader.go', '		return jdir > dir\n	})\n', '		return jdir > dir\n	})\n	if j > i+4096 {\n		j = i + 4096\n	}\n'))
m('ls-range-prefix', 'C26', ('reader.go', 'return jdir > dir', 'return !strings.HasPrefix(jdir, dir)'))
m('ls-twice-file', 'C26', ('reader.go', '''			if idx, ok := files[name]; ok {
				z.fileList[idx].isDup = true

				continue
			}
''', '''			if idx, ok := files[name]; ok {
				z.fileList[idx].isDup = true
			}
'''))
m('ls-twice-dir', 'C26', ('reader.go', '''			if idx, ok := knownDirs[name]; ok {
				z.fileList[idx].isDup = true

				continue
			}

''', ''))
m('ls-twice-unrecorded', 'C26', ('reader.go', '				knownDirs[name] = idx\n', '				knownDirs[file.Name] = idx\n'))
m('ls-twice-implied', 'C26', ('reader.go', '''				if idx, ok := files[dir]; ok {
					z.fileList[idx].isDup = true
				} else {''', '''				if idx, ok := files[dir]; ok {
					z.fileList[idx].isDup = true
				}

				{'''))
m('ls-parents-one', 'C26', ('reader.go', '''			for dir := path.Dir(name); dir != "."; dir = path.Dir(dir) {
				dirs[dir] = struct{}{}
			}''', '''			if dir := path.Dir(name); dir != "." {
				dirs[dir] = struct{}{}
			}'''))
m('ls-parents-files', 'C26', ('reader.go', '''			for dir := path.Dir(name); dir != "."; dir = path.Dir(dir) {''', '''			for dir := path.Dir(name); dir != "." && !isDir; dir = path.Dir(dir) {'''))
m('ls-parents-skip', 'C26', ('reader.go', '''			for dir := path.Dir(name); dir != "."; dir = path.Dir(dir) {''', '''			for dir := path.Dir(path.Dir(name)); dir != "."; dir = path.Dir(dir) {'''))
m('ls-parents-depth', 'C26', ('reader.go', '''			for dir := path.Dir(name); dir != "."; dir = path.Dir(dir) {''', '''			for dir := path.Dir(name); dir != "." && strings.Count(dir, "/") > 0; dir = path.Dir(dir) {'''))
m('ls-implied-out', 'C26', ('reader.go', '			if _, ok := knownDirs[dir]; !ok {', '			if _, ok := knownDirs[dir]; !ok && len(dirs) < 1<<16 {'))
m('ls-implied-name', 'C26', ('reader.go', '						name:  dir,\n', '						name:  path.Base(dir),\n'))
m('ls-rd-stuck', 'C26', ('reader.go', '	d.offset += n\n', '	d.offset = n\n'))
m('ls-rd-asked', 'C26', ('reader.go', '	d.offset += n\n', '	if count > 0 {\n		d.offset += count\n	}\n'))
m('ls-rd-fail-moves', 'C26', ('reader.go', '	d.offset += n\n', ''), ('reader.go', '	list := make([]iofs.DirEntry, n)\n	for i := range list {\n		s, err := d.files[d.offset+i].stat()', '	list := make([]iofs.DirEntry, n)\n	d.offset += n\n	for i := range list {\n		s, err := d.files[d.offset-n+i].stat()'))
m('ls-rd-eof-all', 'C26', ('reader.go', '''		if count <= 0 {
			return nil, nil
		}

''', ''))
m('ls-rd-noeof', 'C26', ('reader.go', '''		return nil, io.EOF
	}

	list :=''', '''		return nil, nil
	}

	list :='''))
m('ls-rd-early', 'C26', ('reader.go', '	n := len(d.files) - d.offset\n', '	n := max(len(d.files)-d.offset-1, 0)\n'))
m('ls-rd-toomany', 'C26', ('reader.go', '	if count > 0 && n > count {', '	if count > 1 && n > count {'))
m('ls-rd-index', 'C26', ('reader.go', 'd.files[d.offset+i].stat()', 'd.files[(d.offset+i)%n].stat()'))
m('ls-rd-first', 'C26', ('reader.go', 'd.files[d.offset+i].stat()', 'd.files[i].stat()'))

# C21: volumes
_VOL = 'f, err := fs.Open(fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ext), i))'
m('vol-start-3', 'C21', ('reader.go', 'for i := 2; true; i++ {', 'for i := 3; true; i++ {'))
m('vol-step-2', 'C21', ('reader.go', 'for i := 2; true; i++ {', 'for i := 2; true; i += 2 {'))
m('vol-bound', 'C21', ('reader.go', 'for i := 2; true; i++ {', 'for i := 2; i < 1000; i++ {'))
m('vol-digits', 'C21', ('reader.go', '"%s.%03d"', '"%s.%02d"'))
m('vol-hex', 'C21', ('reader.go', '"%s.%03d"', '"%s.%03x"'))
m('vol-replace', 'C21', ('reader.go', _VOL, 'f, err := fs.Open(strings.ReplaceAll(name, ext, fmt.Sprintf(".%03d", i)))'))
m('vol-base', 'C21', ('reader.go', _VOL, 'f, err := fs.Open(fmt.Sprintf("%s.%03d", strings.TrimSuffix(filepath.Base(name), ext), i))'))
m('vol-trimright', 'C21', ('reader.go', 'strings.TrimSuffix(name, ext), i', 'strings.TrimRight(name, ext), i'))
m('vol-any-error', 'C21', ('reader.go', 'if errors.Is(err, iofs.ErrNotExist) {', 'if errors.Is(err, iofs.ErrNotExist) || errors.Is(err, iofs.ErrPermission) {'))
m('vol-late-error', 'C21', ('reader.go', 'if errors.Is(err, iofs.ErrNotExist) {', 'if i > 2 || errors.Is(err, iofs.ErrNotExist) {'))
m('vol-continue', 'C21', ('reader.go', '					break\n				}\n\n				errs', '					if i < 100 {\n						continue\n					}\n\n					break\n				}\n\n				errs'))
m('vol-size-first', 'C21', ('reader.go', 'io.NewSectionReader(f, 0, info.Size())', 'io.NewSectionReader(f, 0, size)'))
m('vol-size-less', 'C21', ('reader.go', 'io.NewSectionReader(f, 0, info.Size())', 'io.NewSectionReader(f, 0, info.Size()-1)'))
m('vol-size-off', 'C21', ('reader.go', 'io.NewSectionReader(f, 0, info.Size())', 'io.NewSectionReader(f, 1, info.Size())'))
m('vol-skip-small', 'C21', ('reader.go', '			sr = append(sr, io', '			if info.Size() < 32 {\n				continue\n			}\n\n			sr = append(sr, io'))
m('vol-prepend', 'C21', ('reader.go', 'sr = append(sr, io.NewSectionReader(f, 0, info.Size()))', 'sr = append([]readerutil.SizeReaderAt{io.NewSectionReader(f, 0, info.Size())}, sr...)'))
m('vol-list-prepend', 'C21', ('reader.go', '			files = append(files, f)\n', '			files = append([]afero.File{f}, files...)\n'))
m('vol-join-part', 'C21', ('reader.go', 'readerutil.NewMultiReaderAt(sr...)', 'readerutil.NewMultiReaderAt(sr[:min(len(sr), 64)]...)'))
m('vol-size-joint', 'C21', ('reader.go', 'reader, size = mr, mr.Size()', 'reader, size = mr, size*int64(len(sr))'))
m('vol-size-old', 'C21', ('reader.go', 'reader, size = mr, mr.Size()', 'reader = mr'))
m('vol-reader-old', 'C21', ('reader.go', 'reader, size = mr, mr.Size()', 'size = mr.Size()'))
m('vol-stat-ignored', 'C21', ('reader.go', '''			if err != nil {
				errs := make([]error, 0, len(files)+1)
				errs = append(errs, err)

				for _, file := range files {
					errs = append(errs, file.Close())
				}

				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))
			}
''', '''			if err != nil {
				break
			}
'''))
m('vol-ext', 'C21', ('reader.go', 'ext == ".001" {', 'ext == ".001" && size > 32 {'))
m('vol-ext-upper', 'C21', ('reader.go', 'ext == ".001" {', 'ext == ".001" && filepath.Ext(strings.TrimSuffix(name, ext)) == ".7z" && name != "" && filepath.Base(name) != name {'))
m('vol-names-last', 'C21', ('reader.go', '	for idx, f := range rc.f {\n		volumes', '	for idx, f := range rc.f[:max(len(rc.f)-1, 1)] {\n		volumes'))
m('vol-names-order', 'C21', ('reader.go', 'volumes[idx] = f.Name()', 'volumes[len(rc.f)-1-idx] = f.Name()'))
m('vol-names-skip', 'C21', ('reader.go', '		volumes[idx] = f.Name()\n', '		if f.Name() == "" {\n			continue\n		}\n\n		volumes[idx] = f.Name()\n'))
m('vol-names-stop', 'C21', ('reader.go', '		volumes[idx] = f.Name()\n', '		volumes[idx] = f.Name()\n		if idx > 98 {\n			break\n		}\n'))

# --- C23
m('al-init-index-i', 'C23', ('reader.go', '				j++\n			}\n\n			z.File', '			}\n\n			j++\n\n			z.File'))
m('al-hdr-index', 'C23', ('types.go', '''		j++
	}

	return h, nil''', '''		if h.filesInfo.file[i].UncompressedSize > 0 {
			j++
		}
	}

	return h, nil'''))
m('al-init-cond', 'C23', ('reader.go', 'if !fh.isEmptyStream && !fh.isEmptyFile {', 'if !fh.isEmptyFile {'))
m('al-init-cond-dir', 'C23', ('reader.go', 'if !fh.isEmptyStream && !fh.isEmptyFile {', 'if !fh.isEmptyFile && (!fh.isEmptyStream || fh.Attributes == 0) {'))
m('al-hdr-cond', 'C23', ('types.go', '''		if h.filesInfo.file[i].isEmptyStream {
			continue
		}

		_,''', '''		if h.filesInfo.file[i].isEmptyStream && h.filesInfo.file[i].isEmptyFile {
			continue
		}

		_,'''))
m('al-hdr-dir', 'C23', ('types.go', '''		if h.filesInfo.file[i].isEmptyStream {
			continue
		}

		_,''', '''		if h.filesInfo.file[i].isEmptyStream || strings.HasSuffix(h.filesInfo.file[i].Name, "/") {
			continue
		}

		_,'''), ('types.go', '	"math"\n', '	"math"\n	"strings"\n'))
m('al-hdr-other', 'C23', ('types.go', '''		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32, err =''', '''		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[j].CRC32, err ='''))
m('al-stream-j', 'C23', ('reader.go', 'f.Stream = f.folder', 'f.Stream = j'))
m('al-stream-prev', 'C23', ('reader.go', 'f.Stream = f.folder', 'f.Stream = folder'))
m('al-off-noreset', 'C23', ('reader.go', 'if f.folder != folder {', 'if f.folder < folder {'))
m('al-off-resetalways', 'C23', ('reader.go', 'if f.folder != folder {', 'if f.folder != folder || offset < 0 || f.UncompressedSize == 0 {'))
m('al-off-nextgroup', 'C23', ('reader.go', '				folder = f.folder\n', '				folder++\n'))
m('al-off-keepgroup', 'C23', ('reader.go', '				folder = f.folder\n', '				if offset > 0 {\n					folder = f.folder\n				}\n'))
m('al-off-crc', 'C23', ('reader.go', 'offset += int64(f.UncompressedSize)', 'offset += int64(f.CRC32)'))
m('al-off-nosize', 'C23', ('reader.go', '				offset += int64(f.UncompressedSize) //nolint:gosec\n', '				if f.CRC32 != 0 {\n					offset += int64(f.UncompressedSize) //nolint:gosec\n				}\n'))
m('al-off-before', 'C23', ('reader.go', '''				f.offset = offset
				offset += int64(f.UncompressedSize) //nolint:gosec
''', '''				offset += int64(f.UncompressedSize) //nolint:gosec
				f.offset = offset
'''))
m('al-off-start', 'C23', ('reader.go', 'folder, offset := 0, int64(0)', 'folder, offset := 0, int64(1)'))
m('al-look-le', 'C23', ('struct.go', 'if uint64(file) < total { //nolint:gosec\n				break', 'if uint64(file) <= total { //nolint:gosec\n				break'))
m('al-look-order', 'C23', ('struct.go', '''			total += streams
			if uint64(file) < total { //nolint:gosec
				break
			}
''', '''			if uint64(file) < total+streams && streams > 0 { //nolint:gosec
				total += streams

				break
			}

			total += max(streams, 1)
'''))
m('al-look-size-folder', 'C23', ('struct.go', 'return folder, si.subStreamsInfo.size[file], crc, nil', 'return folder, si.subStreamsInfo.size[folder], crc, nil'))
m('al-look-digest-folder', 'C23', ('struct.go', 'crc = si.subStreamsInfo.digest[file]', 'crc = si.subStreamsInfo.digest[folder]'))
m('al-look-digest-file', 'C23', ('struct.go', 'crc = si.unpackInfo.digest[folder]', 'crc = si.unpackInfo.digest[file]'))
m('al-look-unpack-file', 'C23', ('struct.go', 'si.unpackInfo.folder[folder].unpackSize(), crc', 'si.unpackInfo.folder[file].unpackSize(), crc'))
m('al-look-whole', 'C23', ('struct.go', '	if streams == 1 {\n', '	if streams <= 2 {\n'))
m('al-look-whole-nosize', 'C23', ('struct.go', '	if streams == 1 {\n', '	if streams == 1 || len(si.subStreamsInfo.size) == 0 {\n'))
m('al-look-onefile', 'C23', ('struct.go', '		folder = file\n', '		folder = len(si.unpackInfo.folder) - 1 - file\n'))
m('al-look-onefile0', 'C23', ('struct.go', '		folder = file\n', '		folder = 0\n'))
m('al-look-nocrc', 'C23', ('struct.go', '		if len(si.subStreamsInfo.digest) > 0 {\n', '		if len(si.subStreamsInfo.digest) > 0 && streams > 1 {\n'))
m('al-size-skip', 'C23', ('types.go', 'if s.streams[i] == 0 {\n				continue', 'if folder[i].unpackSize() == 0 {\n				continue'))
m('al-size-from0', 'C23', ('types.go', 'for j := uint64(1); j < s.streams[i]; j++ {', 'for j := uint64(0); j < s.streams[i]; j++ {'))
m('al-size-norest', 'C23', ('types.go', '				remaining -= s.size[k]\n', ''))
m('al-size-restprev', 'C23', ('types.go', '				remaining -= s.size[k]\n				k++\n', '				k++\n				remaining -= s.size[k-1] - s.size[0]\n'))
m('al-size-knot', 'C23', ('types.go', '			s.size[k] = remaining\n			k++\n', '			s.size[k] = remaining\n			if remaining > 0 {\n				k++\n			}\n'))
m('al-size-zero', 'C23', ('types.go', '''			if s.streams[i] == 0 {
				continue
			}

''', '			if s.streams[i] == 0 && k >= len(s.size) {\n				continue\n			}\n\n'))
m('al-size-folder', 'C23', ('types.go', 'remaining := folder[i].unpackSize()', 'remaining := folder[len(folder)-1-i].unpackSize()'))
m('al-size-folder0', 'C23', ('types.go', 'remaining := folder[i].unpackSize()', 'remaining := folder[0].unpackSize()'))
m('al-pack-k', 'C23', ('struct.go', '		k += si.unpackInfo.folder[i].packedStreams\n	}\n\n	return int64', '		k++\n	}\n\n	return int64'))
m('al-pack-incl', 'C23', ('struct.go', 'for i, k := 0, uint64(0); i < folder; i++ {', 'for i, k := 0, uint64(0); i+1 < folder; i++ {'))
m('al-pack-folder', 'C23', ('struct.go', 'for j := k; j < k+si.unpackInfo.folder[i].packedStreams; j++ {', 'for j := k; j < k+si.unpackInfo.folder[folder].packedStreams; j++ {'))
m('al-pack-from1', 'C23', ('struct.go', 'for i, k := 0, uint64(0); i < folder; i++ {', 'for i, k := 1, uint64(0); i < folder; i++ {'))
m('al-pack-index', 'C23', ('struct.go', '			offset += si.packInfo.size[j]\n', '			offset += si.packInfo.size[i]\n'))
m('al-pack-base', 'C23', ('struct.go', 'return int64(si.packInfo.position + offset)', 'return int64(offset)'))
m('al-in-sum', 'C23', ('struct.go', '	for i := range folder {\n		packedOffset += len(', '	for i := range folder {\n		packedOffset = len('))
m('al-in-coders', 'C23', ('struct.go', 'packedOffset += len(si.unpackInfo.folder[i].packed)', 'packedOffset += len(si.unpackInfo.folder[i].coder)'))
m('al-in-index', 'C23', ('struct.go', 'size := int64(si.packInfo.size[packedOffset+i])', 'size := int64(si.packInfo.size[packedOffset])'))
m('al-in-input', 'C23', ('struct.go', 'size := int64(si.packInfo.size[packedOffset+i])', 'size := int64(si.packInfo.size[packedOffset+int(input)])'))
m('al-in-offset', 'C23', ('struct.go', '		offset += size\n', '		offset = size\n'))
m('al-in-offset2', 'C23', ('struct.go', '		offset += size\n', '		if size > 1 {\n			offset += size\n		}\n'))
m('al-in-folder', 'C23', ('struct.go', 'si.folderOffset(folder)+offset', 'si.folderOffset(len(f.packed))+offset'))
m('al-in-len', 'C23', ('struct.go', 'si.folderOffset(folder)+offset, size)', 'si.folderOffset(folder)+offset, size+offset)'))
m('al-in-crc', 'C23', ('struct.go', 'return fr, si.unpackInfo.digest[folder], hasEncryption, nil', 'return fr, si.unpackInfo.digest[0], hasEncryption, nil'))

# --- C02
m('sz-subsum', 'C02', ('types.go', """		files += v

		if err := checkUint64(files, false); err != nil {
			return nil, err
		}
""", """		files += v
"""))
m('sz-subsum-each', 'C02', ('types.go', """		files += v

		if err := checkUint64(files, false); err != nil {
""", """		files += v

		if err := checkUint64(v, false); err != nil {
"""))
m('sz-subsum-before', 'C02', ('types.go', """		files += v

		if err := checkUint64(files, false); err != nil {
			return nil, err
		}
""", """		if err := checkUint64(files, false); err != nil {
			return nil, err
		}

		files += v
"""))
m('sz-total', 'C02', ('types.go', """		if err := checkUint64(total, true); err != nil {
			return nil, err
		}

		f.size""", """		f.size"""))
m('sz-in', 'C02', ('types.go', """	if err := checkUint64(f.in, true); err != nil {
		return nil, err
	}

""", ''))
m('sz-diff', 'C02', ('types.go', """	if f.in < f.out {
		return nil, errInvalidBindPair
	}

""", ''))
m('sz-files', 'C02', ('types.go', """	files, err := readUint64Bounded(r, true)
	if err != nil {
		return nil, err
	}

	f.file""", """	files, err := readUint64(r)
	if err != nil {
		return nil, err
	}

	f.file"""))
m('sz-limit', 'C02', ('types.go', 'v > math.MaxUint32', 'v > 1<<40'))
m('sz-and', 'C02', ('types.go', 'v > uint64(math.MaxInt) || v > math.MaxUint32', 'v > uint64(math.MaxInt) && v > math.MaxUint32'))
m('sz-nonzero-only', 'C02', ('types.go', 'if v > uint64(math.MaxInt) || v > math.MaxUint32 {', 'if nonZero && (v > uint64(math.MaxInt) || v > math.MaxUint32) {'))
m('sz-names', 'C02', ('types.go', 'make([]string, 0, min(count, 1024))', 'make([]string, 0, count)'))
m('sz-sizes', 'C02', ('types.go', 'sizes := make([]uint64, 0, min(count, 1024))', 'sizes := make([]uint64, 0, count)'))
m('sz-bool', 'C02', ('types.go', 'defined := make([]bool, 0, min(count, 1024))', 'defined := make([]bool, 0, count)'))
m('sz-coders', 'C02', ('types.go', 'make([]*coder, 0, min(coders, 16))', 'make([]*coder, 0, coders)'))
m('sz-max', 'C02', ('types.go', 'make([]*folder, 0, min(folders, 1024))', 'make([]*folder, 0, max(folders, 1024))'))
m('sz-min-large', 'C02', ('types.go', 'make([]*folder, 0, min(folders, 1024))', 'make([]*folder, 0, min(folders, 1<<28))'))
m('sz-crc', 'C02', ('types.go', """func readCRC(r util.Reader, count uint64) ([]uint32, error) {
	if err := checkUint64(count, true); err != nil {
		return nil, err
	}

	defined""", """func readCRC(r util.Reader, count uint64) ([]uint32, error) {
	defined"""), ('types.go', """func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
	if err := checkUint64(count, true); err != nil {
		return nil, err
	}
""", """func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
"""), ('types.go', """	p.streams, err = readUint64Bounded(r, true)""", """	p.streams, err = readUint64(r)"""))
m('sz-bindpairs', 'C02', ('types.go', 'make([]*bindPair, 0, min(bindPairs, 16))', 'make([]*bindPair, 0, bindPairs)'))
m('sz-header', 'C02', ('reader.go', 'func (z *Reader) init(', """func (z *Reader) buffer(sh *startHeader) []byte {
	return make([]byte, sh.Size)
}

func (z *Reader) init("""))
m('sz-unpack', 'C02', ('internal/bcj2/reader.go', '	rc.buf.Grow(1 << 16)', '	rc.buf.Grow(1<<16 + int(unpackSize))'), ('internal/bcj2/reader.go', 'func NewReader(_ []byte, _ uint64,', 'func NewReader(_ []byte, unpackSize uint64,'))
m('sz-props', 'C02', ('types.go', """		size, err := readUint64Bounded(r, true)
		if err != nil {
			return nil, err
		}

		c.properties""", """		size, err := readUint64(r)
		if err != nil {
			return nil, err
		}

		c.properties"""))
m('sz-product', 'C02', ('types.go', 'crcs := make([]uint32, count)', 'crcs := make([]uint32, count*count)[:count]'))
