# behaviour-preserving variants: every check must stay quiet
# (name, [(file, old, new)...])
M = []
def m(name, *edits): M.append((name, list(edits)))

m('pool-helper', ('internal/pool/pool.go', '''	if ent, ok := p.items[offset]; ok {
		_ = p.removeElement(ent, false)

		return ent.Value.(*entry).value, true //nolint:forcetypeassert
	}

	// Sort''', '''	if ent, ok := p.items[offset]; ok {
		return p.take(ent), true
	}

	// Sort'''), ('internal/pool/pool.go', '''			ent := p.items[k]
			_ = p.removeElement(ent, false)

			return ent.Value.(*entry).value, true //nolint:forcetypeassert
''', '''			return p.take(p.items[k]), true
'''), ('internal/pool/pool.go', '''func (p *pool) Put(''', '''func (p *pool) take(el *list.Element) util.SizeReadSeekCloser {
	_ = p.removeElement(el, false)

	return el.Value.(*entry).value //nolint:forcetypeassert
}

func (p *pool) Put('''))
m('pool-scan', ('internal/pool/pool.go', '''	// Sort keys in descending order
	keys := p.keys()
	sort.Slice(keys, func(i, j int) bool { return keys[i] > keys[j] })

	for _, k := range keys {
		// First key less than offset is the closest
		if k < offset {
			ent := p.items[k]
			_ = p.removeElement(ent, false)

			return ent.Value.(*entry).value, true //nolint:forcetypeassert
		}
	}

	return nil, false''', '''	var best *list.Element

	for k, ent := range p.items {
		if k < offset && (best == nil || k > best.Value.(*entry).key) {
			best = ent
		}
	}

	if best == nil {
		return nil, false
	}

	_ = p.removeElement(best, false)

	return best.Value.(*entry).value, true //nolint:forcetypeassert'''), ('internal/pool/pool.go', '	"sort"\n', ''), ('internal/pool/pool.go', '''func (p *pool) keys() []int64 {
	keys := make([]int64, len(p.items))
	i := 0

	for ent := p.evictList.Back(); ent != nil; ent = ent.Prev() {
		keys[i] = ent.Value.(*entry).key //nolint:forcetypeassert
		i++
	}

	return keys
}
''', ''))
m('pool-unlock', ('internal/pool/pool.go', '''	defer p.mutex.Unlock()

	if _, ok := p.items[offset]; ok {
		return false, rc.Close() //nolint:wrapcheck
	}

	ent''', '''
	if _, exists := p.items[offset]; exists {
		p.mutex.Unlock()

		return false, rc.Close() //nolint:wrapcheck
	}

	ent'''), ('internal/pool/pool.go', '''		err = p.removeOldest()
	}

	return evict, err''', '''		err = p.removeOldest()
	}

	p.mutex.Unlock()

	return evict, err'''))
m('fs-open-order', ('reader.go', '''	z.initFileList()

	if !iofs.ValidPath(name) {
		return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrInvalid}
	}

	e := z.openLookup(name)
	if e == nil {
		return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrNotExist}
	}

	if e.isDir {
		return &openDir{e, z.openReadDir(name), 0}, nil
	}

	rc, err := e.file.Open()
	if err != nil {
		return nil, err
	}

	return rc.(iofs.File), nil //nolint:forcetypeassert''', '''	if valid := iofs.ValidPath(name); !valid {
		return nil, pathError("open", name, iofs.ErrInvalid)
	}

	z.initFileList()

	switch entry := z.openLookup(name); {
	case entry == nil:
		return nil, pathError("open", name, iofs.ErrNotExist)
	case entry.isDir:
		dir := &openDir{e: entry}
		dir.files = z.openReadDir(name)

		return dir, nil
	default:
		rc, err := entry.file.Open()
		if err == nil {
			return rc.(iofs.File), nil //nolint:forcetypeassert
		}

		return nil, err
	}
}

func pathError(op, name string, err error) error {
	return &iofs.PathError{Op: op, Path: name, Err: err}'''))
m('filelist-method', ('reader.go', '''	z.fileListOnce.Do(func() {
		files := make''', '''	z.fileListOnce.Do(z.buildFileList)
}

func (z *Reader) buildFileList() {
	{
		files := make'''), ('reader.go', '''z.fileList[j].name) })
	})
}''', '''z.fileList[j].name) })
	}
}'''))
m('filelist-local', ('reader.go', '''			name := toValidName(file.Name)
			if name == "." || !iofs.ValidPath(name) {
				continue
			}
''', '''			name := toValidName(file.Name)
			if usable := name != "." && iofs.ValidPath(name); !usable {
				continue
			}
'''), ('reader.go', '''			idx := len(z.fileList)
			entry := fileListEntry{
				name:  name,
				file:  file,
				isDir: isDir,
			}
			z.fileList = append(z.fileList, entry)
''', '''			z.fileList = append(z.fileList, fileListEntry{name: name, file: file, isDir: isDir})
			idx := len(z.fileList) - 1
'''), ('reader.go', 'isDir := len(file.Name) > 0 && file.Name[len(file.Name)-1] == \'/\'', 'isDir := strings.HasSuffix(file.Name, "/")'))
m('filelist-sort', ('reader.go', 'sort.Slice(z.fileList, func(i, j int) bool { return fileEntryLess(z.fileList[i].name, z.fileList[j].name) })', '''list := z.fileList
		sort.Slice(list, func(a, b int) bool {
			return fileEntryLess(list[a].name, list[b].name)
		})'''))
m('file-open-helper', ('reader.go', '''	rc, _ := f.zip.pool[f.folder].Get(f.offset)
	if rc == nil {
		var (
			encrypted bool
			err       error
		)

		rc, _, encrypted, err = f.zip.folderReader(f.zip.si, f.folder)
		if err != nil {
			return nil, &ReadError{
				Encrypted: encrypted,
				Err:       err,
			}
		}
	}

	if _, err := rc.Seek(f.offset, io.SeekStart); err != nil {
		e := &ReadError{
			Err: err,
		}

		if fr, ok := rc.(*folderReadCloser); ok {
			e.Encrypted = fr.hasEncryption
		}

		e.Err = errors.Join(e.Err, rc.Close())

		return nil, e
	}

	return &fileReader{
		rc: rc,
		f:  f,
		n:  int64(f.UncompressedSize), //nolint:gosec
	}, nil
}''', '''	rc, err := f.stream()
	if err != nil {
		return nil, err
	}

	_, err = rc.Seek(f.offset, io.SeekStart)
	if err != nil {
		return nil, newReadError(rc, errors.Join(err, rc.Close()))
	}

	fr := new(fileReader)
	fr.rc = rc
	fr.f = f
	fr.n = int64(f.UncompressedSize) //nolint:gosec

	return fr, nil
}

func (f *File) stream() (util.SizeReadSeekCloser, error) {
	if rc, ok := f.zip.pool[f.folder].Get(f.offset); ok {
		return rc, nil
	}

	rc, _, encrypted, err := f.zip.folderReader(f.zip.si, f.folder)
	if err != nil {
		return nil, &ReadError{Encrypted: encrypted, Err: err}
	}

	return rc, nil
}

func newReadError(rc util.SizeReadSeekCloser, err error) *ReadError {
	e := &ReadError{Err: err}

	if fr, ok := rc.(*folderReadCloser); ok {
		e.Encrypted = fr.hasEncryption
	}

	return e
}'''))
m('fileread-shape', ('reader.go', '''	if int64(len(p)) > fr.n {
		p = p[0:fr.n]
	}

	n, err := fr.rc.Read(p)
	fr.n -= int64(n)

	if err != nil && !errors.Is(err, io.EOF) {
		e := &ReadError{
			Err: err,
		}

		if frc, ok := fr.rc.(*folderReadCloser); ok {
			e.Encrypted = frc.hasEncryption
		}

		return n, e
	}

	return n, err //nolint:wrapcheck''', '''	n, err := fr.rc.Read(p[:min(int64(len(p)), fr.n)])
	fr.n -= int64(n)

	if err == nil || errors.Is(err, io.EOF) {
		return n, err //nolint:wrapcheck
	}

	frc, ok := fr.rc.(*folderReadCloser)

	return n, &ReadError{Encrypted: ok && frc.hasEncryption, Err: err}'''))
m('fileclose-shape', ('reader.go', '''	if offset == fr.rc.Size() { // EOF reached
		if err := fr.rc.Close(); err != nil {
			return fmt.Errorf("sevenzip: error closing: %w", err)
		}
	} else {
		// The pool owns the reader from now on, even if evicting another one fails
		f, rc := fr.f, fr.rc
		fr.rc = nil

		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {
			return fmt.Errorf("sevenzip: error adding to pool: %w", err)
		}
	}

	fr.rc = nil

	return nil''', '''	if err := fr.release(offset); err != nil {
		return err
	}

	fr.rc = nil

	return nil
}

func (fr *fileReader) release(offset int64) error {
	rc := fr.rc
	if offset != rc.Size() {
		fr.rc = nil
		p := fr.f.zip.pool[fr.f.folder]
		if _, err := p.Put(offset, rc); err != nil {
			return fmt.Errorf("sevenzip: error adding to pool: %w", err)
		}

		return nil
	}

	if err := rc.Close(); err != nil {
		return fmt.Errorf("sevenzip: error closing: %w", err)
	}

	return nil'''))
m('closeall', ('reader.go', '''				errs := make([]error, 0, len(files)+1)
				errs = append(errs, err)

				for _, file := range files {
					errs = append(errs, file.Close())
				}

				return nil, 0, nil, fmt.Errorf("sevenzip: error opening: %w", errors.Join(errs...))''', '''				return nil, 0, nil, fmt.Errorf("sevenzip: error opening: %w", closeAll(err, files))'''),
 ('reader.go', '''				errs := make([]error, 0, len(files)+1)
				errs = append(errs, err)

				for _, file := range files {
					errs = append(errs, file.Close())
				}

				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))''', '''				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", closeAll(err, files))'''),
 ('reader.go', '''		errs := make([]error, 0, len(files)+1)
		errs = append(errs, err)

		for _, file := range files {
			errs = append(errs, file.Close())
		}

		return nil, fmt.Errorf("sevenzip: error initialising: %w", errors.Join(errs...))''', '''		return nil, fmt.Errorf("sevenzip: error initialising: %w", closeAll(err, files))'''),
 ('reader.go', '''// OpenReaderWithPassword will''', '''func closeAll(err error, files []afero.File) error {
	errs := []error{err}
	for _, file := range files {
		errs = append(errs, file.Close())
	}

	return errors.Join(errs...)
}

// OpenReaderWithPassword will'''))
m('closeall-join', ('reader.go', '''	errs := make([]error, 0, len(rc.f))

	for _, f := range rc.f {
		errs = append(errs, f.Close())
	}

	err := errors.Join(errs...)
	if err != nil {
		err = fmt.Errorf("sevenzip: error closing: %w", err)
	}

	return err''', '''	var err error

	for i := 0; i < len(rc.f); i++ {
		err = errors.Join(err, rc.f[i].Close())
	}

	if err == nil {
		return nil
	}

	return fmt.Errorf("sevenzip: error closing: %w", err)'''))
m('volumes-loop', ('reader.go', '''		for i := 2; true; i++ {
			f, err := fs.Open(fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ext), i))
			if err != nil {
				if errors.Is(err, iofs.ErrNotExist) {
					break
				}
''', '''		base := strings.TrimSuffix(name, ext)

		for i := 2; ; i++ {
			volume := fmt.Sprintf("%s.%03d", base, i)

			f, err := fs.Open(volume)
			if errors.Is(err, iofs.ErrNotExist) {
				break
			}

			if err != nil {
'''))
m('volumes-list', ('reader.go', '''	volumes := make([]string, len(rc.f))
	for idx, f := range rc.f {
		volumes[idx] = f.Name()
	}
''', '''	volumes := make([]string, 0, len(rc.f))
	for _, f := range rc.f {
		volumes = append(volumes, f.Name())
	}
'''))
m('init-split', ('reader.go', '''	z.si = header.streamsInfo

	// spew.Dump(header)
	filesPerStream''', '''	return z.setup(header)
}

func (z *Reader) setup(header *header) (err error) {
	z.si = header.streamsInfo

	// spew.Dump(header)
	filesPerStream'''))
m('init-pools', ('reader.go', '''	z.pool = make([]pool.Pooler, z.si.Folders())
	for i := range z.pool {
		var newPool pool.Constructor = pool.NewNoopPool

		if filesPerStream[i] > 1 {
			newPool = pool.NewPool
		}

		if z.pool[i], err = newPool(); err != nil {
			return err
		}
	}

	return nil''', '''	folders := z.si.Folders()
	z.pool = make([]pool.Pooler, 0, folders)

	for i := 0; i < folders; i++ {
		newPool := pool.NewPool
		if filesPerStream[i] <= 1 {
			newPool = pool.NewNoopPool
		}

		p, err := newPool()
		if err != nil {
			return err
		}

		z.pool = append(z.pool, p)
	}

	return nil'''))
m('init-files', ('reader.go', '''			if !fh.isEmptyStream && !fh.isEmptyFile {
				f.folder, _, _, err = header.streamsInfo.FileFolderAndSize(j)
				if err != nil {
					return err
				}

				// Make an exported copy of the folder index
				f.Stream = f.folder

				filesPerStream[f.folder]++

				if f.folder != folder {
					offset = 0
				}

				f.offset = offset
				offset += int64(f.UncompressedSize) //nolint:gosec
				folder = f.folder
				j++
			}

			z.File = append(z.File, f)
''', '''			z.File = append(z.File, f)

			if fh.isEmptyStream || fh.isEmptyFile {
				continue
			}

			idx, _, _, err := header.streamsInfo.FileFolderAndSize(j)
			if err != nil {
				return err
			}

			j++

			filesPerStream[idx]++

			if idx != folder {
				folder, offset = idx, 0
			}

			f.folder, f.Stream, f.offset = idx, idx, offset
			offset += int64(f.UncompressedSize) //nolint:gosec
'''))
m('init-crc', ('reader.go', '''	// CRC should match the one from the start header
	if !util.CRC32Equal(h.Sum(nil), start.CRC) {
		return errChecksum
	}
''', '''	// CRC should match the one from the start header
	match := util.CRC32Equal(h.Sum(nil), start.CRC)
	if match == false {
		return errChecksum
	}
'''))
m('init-sigloop', ('reader.go', '''		// CRC of the start header should match
		if util.CRC32Equal(h.Sum(nil), sh.CRC) {
			break
		}

		err = errChecksum
	}

	if err != nil {
		return err
	}
''', '''		// CRC of the start header should match
		found = util.CRC32Equal(h.Sum(nil), sh.CRC)
		if found {
			break
		}
	}

	if !found {
		return errChecksum
	}
'''), ('reader.go', '		start startHeader\n	)', '		start startHeader\n		found bool\n	)'))
m('init-switch', ('reader.go', '''	switch id {
	case idHeader:
		if header, err = readHeader(br); err != nil {
			return err
		}
	case idEncodedHeader:
		if streamsInfo, err = readStreamsInfo(br); err != nil {
			return err
		}
	default:
		return errUnexpectedID
	}
''', '''	if id == idHeader {
		header, err = readHeader(br)
	} else if id == idEncodedHeader {
		streamsInfo, err = readStreamsInfo(br)
	} else {
		err = errUnexpectedID
	}

	if err != nil {
		return err
	}
'''))
m('crcequal', ('internal/util/checksum.go', 'return ', 'return true && '))
m('nextid', ('types.go', '''	id, err := r.ReadByte()
	if err != nil {
		return nil, fmt.Errorf("readPackInfo: ReadByte error: %w", err)
	}

	if id == idSize {
		if p.size, err = readSizes(r, p.streams); err != nil {
			return nil, err
		}

		id, err = r.ReadByte()
		if err != nil {
			return nil, fmt.Errorf("readPackInfo: ReadByte error: %w", err)
		}
	}

	if id == idCRC {
		if p.digest, err = readCRC(r, p.streams); err != nil {
			return nil, err
		}

		id, err = r.ReadByte()
		if err != nil {
			return nil, fmt.Errorf("readPackInfo: ReadByte error: %w", err)
		}
	}
''', '''	id, err := nextID(r, "readPackInfo")
	if err != nil {
		return nil, err
	}

	if id == idSize {
		sizes, err := readSizes(r, p.streams)
		if err != nil {
			return nil, err
		}

		p.size = sizes

		if id, err = nextID(r, "readPackInfo"); err != nil {
			return nil, err
		}
	}

	if id == idCRC {
		digests, err := readCRC(r, p.streams)
		if err != nil {
			return nil, err
		}

		p.digest = digests

		if id, err = nextID(r, "readPackInfo"); err != nil {
			return nil, err
		}
	}
'''), ('types.go', '''//nolint:cyclop
func readCoder(''', '''func nextID(r io.ByteReader, where string) (byte, error) {
	id, err := r.ReadByte()
	if err != nil {
		return 0, fmt.Errorf("%s: ReadByte error: %w", where, err)
	}

	return id, nil
}

//nolint:cyclop
func readCoder('''))
m('external-helper', *[e for n in ('readTimes', 'readNames', 'readAttributes') for e in [('types.go', '''	external, err := r.ReadByte()
	if err != nil {
		return nil, fmt.Errorf("%s: ReadByte error: %%w", err)
	}

	if external > 0 {
		/*
			_, err := readUint64(r)
			if err != nil {
				return nil, err
			}
		*/
		// TODO Apparently we seek to this read offset and read the
		// folder information from there. Not clear if the offset is
		// absolute for the whole file, or relative to some known
		// position in the file. Cowardly waiting for an example
		return nil, errors.New("sevenzip: TODO %s external") //nolint:err113
	}
''' % (n, n), '''	if err := noExternal(r, "%s"); err != nil {
		return nil, err
	}
''' % n)]], ('types.go', '''func splitNull(''', '''func noExternal(r io.ByteReader, where string) error {
	external, err := r.ReadByte()
	if err != nil {
		return fmt.Errorf("%s: ReadByte error: %w", where, err)
	}

	if external != 0 {
		return errors.New("sevenzip: TODO " + where + " external") //nolint:err113
	}

	return nil
}

func splitNull('''), ('types.go', '''	if err = scanner.Err(); err != nil {''', '''	if err := scanner.Err(); err != nil {'''))
m('filesinfo-if', ('types.go', '''		case idCTime:
			times, err := readTimes(r, files)
			if err != nil {
				return nil, err
			}

			for i, t := range times {
				f.file[i].Created = t
			}
		case idATime:
			times, err := readTimes(r, files)
			if err != nil {
				return nil, err
			}

			for i, t := range times {
				f.file[i].Accessed = t
			}
		case idMTime:
			times, err := readTimes(r, files)
			if err != nil {
				return nil, err
			}

			for i, t := range times {
				f.file[i].Modified = t
			}
''', '''		case idCTime, idATime, idMTime:
			times, err := readTimes(r, files)
			if err != nil {
				return nil, err
			}

			for i := range f.file {
				switch property {
				case idCTime:
					f.file[i].Created = times[i]
				case idATime:
					f.file[i].Accessed = times[i]
				default:
					f.file[i].Modified = times[i]
				}
			}
'''))
m('filesinfo-helper', ('types.go', '''			names, err := readNames(r, files, length)
			if err != nil {
				return nil, err
			}

			for i, n := range names {
				f.file[i].Name = n
			}
''', '''			if err := f.setNames(r, files, length); err != nil {
				return nil, err
			}
'''), ('types.go', '''//nolint:cyclop,funlen,gocognit,gocyclo
func readFilesInfo(''', '''func (f *filesInfo) setNames(r util.Reader, files, length uint64) error {
	names, err := readNames(r, files, length)
	if err != nil {
		return err
	}

	for i := range names {
		f.file[i].Name = names[i]
	}

	return nil
}

//nolint:cyclop,funlen,gocognit,gocyclo
func readFilesInfo('''))
m('header-assign', ('types.go', '''	j := 0

	for i := range h.filesInfo.file {
		if h.filesInfo.file[i].isEmptyStream {
			continue
		}

		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32, err = h.streamsInfo.FileFolderAndSize(j)
		if err != nil {
			return nil, err
		}

		j++
	}

	return h, nil''', '''	var j int

	for i := range h.filesInfo.file {
		fh := &h.filesInfo.file[i]

		if !fh.isEmptyStream {
			_, size, crc, err := h.streamsInfo.FileFolderAndSize(j)
			if err != nil {
				return nil, err
			}

			fh.UncompressedSize, fh.CRC32 = size, crc
			j++
		}
	}

	return h, nil'''))
m('header-todo', ('types.go', '''		return nil, errors.New("sevenzip: TODO idArchiveProperties") //nolint:err113
	}

	if id == idAdditionalStreamsInfo {
		/*
			id, err = r.ReadByte()
			if err != nil {
				return nil, fmt.Errorf("readHeader: ReadByte error: %w", err)
			}
		*/
		return nil, errors.New("sevenzip: TODO idAdditionalStreamsInfo") //nolint:err113
	}
''', '''		return nil, errUnexpectedID
	}
'''))
m('uint64-loop', ('types.go', '''	for i := range l {
		b, err := r.ReadByte()
		if err != nil {
			return 0, fmt.Errorf("readUint64: ReadByte error: %w", err)
		}

		v |= uint64(b) << (8 * i)
	}
''', '''	for i := 0; i < l; i++ {
		if b, err = r.ReadByte(); err != nil {
			return 0, fmt.Errorf("readUint64: ReadByte error: %w", err)
		}

		v += uint64(b) << (i * 8)
	}
'''))
m('readbool-shape', ('types.go', '''	var b, mask byte
	for range count {
		if mask == 0 {
			var err error

			b, err = r.ReadByte()
			if err != nil {
				return nil, fmt.Errorf("readBool: ReadByte error: %w", err)
			}

			mask = 0x80
		}

		defined = append(defined, (b&mask) != 0)
		mask >>= 1
	}
''', '''	var b byte

	for i := uint64(0); i < count; i++ {
		if i%8 == 0 {
			x, err := r.ReadByte()
			if err != nil {
				return nil, fmt.Errorf("readBool: ReadByte error: %w", err)
			}

			b = x
		}

		defined = append(defined, b&(0x80>>(i%8)) != 0)
	}
'''))
m('checkuint-const', ('types.go', '''	if v > uint64(math.MaxInt) || v > math.MaxUint32 {
		return errUint64TooLarge
	}

	return nil''', '''	if limit := min(uint64(math.MaxInt), math.MaxUint32); v > limit {
		return errUint64TooLarge
	}

	return nil'''))
m('coder-read', ('types.go', '''	c.id = make([]byte, v&0xf)
	if n, err := r.Read(c.id); err != nil || n != int(v&0xf) {
		if err != nil {
			return nil, fmt.Errorf("readCoder: Read error: %w", err)
		}

		return nil, errIncompleteRead
	}
''', '''	idLen := int(v & 0xf)
	c.id = make([]byte, idLen)

	n, err := r.Read(c.id)
	if err != nil {
		return nil, fmt.Errorf("readCoder: Read error: %w", err)
	}

	if n != idLen {
		return nil, errIncompleteRead
	}
'''))
m('substreams-shape', ('types.go', '''		for i := range s.streams {
			if s.streams[i] == 0 {
				continue
			}

			remaining := folder[i].unpackSize()

			for j := uint64(1); j < s.streams[i]; j++ {
				if s.size[k], err = readUint64(r); err != nil {
					return nil, err
				}

				if s.size[k] > remaining {
					return nil, errInvalidSubStreamSize
				}

				remaining -= s.size[k]
				k++
			}

			s.size[k] = remaining
			k++
		}
''', '''		for i, n := range s.streams {
			if n == 0 {
				continue
			}

			left := folder[i].unpackSize()

			for range n - 1 {
				size, err := readUint64(r)
				if err != nil {
					return nil, err
				}

				if size > left {
					return nil, errInvalidSubStreamSize
				}

				s.size[k] = size
				left -= size
				k++
			}

			s.size[k] = left
			k++
		}
'''))
m('folder-helper', ('struct.go', '''	packedOffset := 0
	for i := range folder {
		packedOffset += len(si.unpackInfo.folder[i].packed)
	}

	offset := int64(0)

	for i, input := range f.packed {
		if input >= f.in || packedOffset+i >= len(si.packInfo.size) {
			return nil, 0, false, errInvalidPackedStream
		}

		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
		in[input] = util.NopCloser(bufio.NewReader(io.NewSectionReader(r, si.folderOffset(folder)+offset, size)))
		offset += size
	}
''', '''	if err := si.packedInputs(r, folder, in); err != nil {
		return nil, 0, false, err
	}
'''), ('struct.go', '''//nolint:cyclop,funlen,lll
func (si *streamsInfo) folderReader(''', '''func (si *streamsInfo) packedInputs(r io.ReaderAt, folder int, in []io.ReadCloser) error {
	first := 0
	for i := 0; i < folder; i++ {
		first += len(si.unpackInfo.folder[i].packed)
	}

	offset := si.folderOffset(folder)

	for i, input := range si.unpackInfo.folder[folder].packed {
		if input >= uint64(len(in)) || first+i >= len(si.packInfo.size) {
			return errInvalidPackedStream
		}

		size := int64(si.packInfo.size[first+i]) //nolint:gosec
		sr := io.NewSectionReader(r, offset, size)
		in[input] = util.NopCloser(bufio.NewReader(sr))
		offset += size
	}

	return nil
}

//nolint:cyclop,funlen,lll
func (si *streamsInfo) folderReader('''))
m('coder-reader', ('struct.go', '''	dcomp := decompressor(f.coder[coder].id)
	if dcomp == nil {
		return nil, false, errAlgorithm
	}

	cr, err := dcomp(f.coder[coder].properties, f.size[coder], readers)
	if err != nil {
		return nil, false, err
	}

	crc, ok := cr.(CryptoReadCloser)
	if ok {
		if err = crc.Password(password); err != nil {
			return cr, true, fmt.Errorf("sevenzip: error setting password: %w", err)
		}
	}

	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec''', '''	c, size := f.coder[coder], f.size[coder]

	dcomp := decompressor(c.id)
	if dcomp == nil {
		return nil, false, errAlgorithm
	}

	cr, err := dcomp(c.properties, size, readers)
	if err != nil {
		return nil, false, err
	}

	var encrypted bool

	if crc, ok := cr.(CryptoReadCloser); ok {
		encrypted = true

		if err := crc.Password(password); err != nil {
			return cr, encrypted, fmt.Errorf("sevenzip: error setting password: %w", err)
		}
	}

	limited := plumbing.LimitReadCloser(cr, int64(size)) //nolint:gosec

	return limited, encrypted, nil'''))
m('folder-unbound', ('struct.go', '''	unbound := make([]uint64, 0, f.out)

	for i := range f.out {
		if bp := f.findOutBindPair(i); bp == nil {
			unbound = append(unbound, i)
		}
	}

	if len(unbound) != 1 || out[unbound[0]] == nil {
		return fail(errNoUnboundStream)
	}

	for i, rc := range out {
		if rc != nil && uint64(i) != unbound[0] {
			return fail(errNoUnboundStream)
		}
	}

	fr := newFolderReadCloser(out[unbound[0]], int64(f.unpackSize()), hasEncryption) //nolint:gosec
''', '''	var (
		final io.ReadCloser
		count int
		left  bool
	)

	for i := range f.out {
		if f.findOutBindPair(i) == nil {
			final = out[i]
			count++
		} else if out[i] != nil {
			left = true
		}
	}

	if count != 1 || final == nil || left {
		return fail(errNoUnboundStream)
	}

	fr := newFolderReadCloser(final, int64(f.unpackSize()), hasEncryption) //nolint:gosec
'''))
m('foldersize-loop', ('struct.go', '''		for folder, streams = range si.subStreamsInfo.streams {
			total += streams
			if uint64(file) < total { //nolint:gosec
				break
			}
		}
''', '''		for i := 0; i < len(si.subStreamsInfo.streams); i++ {
			folder, streams = i, si.subStreamsInfo.streams[i]

			if total += streams; total > uint64(file) { //nolint:gosec
				break
			}
		}
'''))
m('foldersize-split', ('struct.go', '''	if streams == 1 {
		if len(si.unpackInfo.digest) > 0 {
			crc = si.unpackInfo.digest[folder]
		}

		return folder, si.unpackInfo.folder[folder].unpackSize(), crc, nil
	}
''', '''	if streams == 1 {
		f := si.unpackInfo.folder[folder]

		if si.unpackInfo.digest != nil {
			crc = si.unpackInfo.digest[folder]
		}

		return folder, f.unpackSize(), crc, nil
	}
'''))
m('offset-loop', ('struct.go', '''	offset := uint64(0)

	for i, k := 0, uint64(0); i < folder; i++ {
		for j := k; j < k+si.unpackInfo.folder[i].packedStreams; j++ {
			offset += si.packInfo.size[j]
		}

		k += si.unpackInfo.folder[i].packedStreams
	}

	return int64(si.packInfo.position + offset) //nolint:gosec''', '''	var j uint64

	offset := si.packInfo.position

	for _, f := range si.unpackInfo.folder[:folder] {
		for end := j + f.packedStreams; j < end; j++ {
			offset += si.packInfo.size[j]
		}
	}

	return int64(offset) //nolint:gosec'''))
m('seek-shape', ('struct.go', '''	var newo int64

	switch whence {
	case io.SeekStart:
		newo = offset
	case io.SeekCurrent:
		newo = int64(rc.wc.Count()) + offset //nolint:gosec
	case io.SeekEnd:
		newo = rc.Size() + offset
	default:
		return 0, errInvalidWhence
	}

	if newo < 0 {
		return 0, errNegativeSeek
	}

	if uint64(newo) < rc.wc.Count() {
		return 0, errSeekBackwards
	}

	if newo > rc.Size() {
		return 0, errSeekEOF
	}

	if _, err := io.CopyN(io.Discard, rc, newo-int64(rc.wc.Count())); err != nil { //nolint:gosec
		return 0, fmt.Errorf("sevenzip: error seeking: %w", err)
	}

	return newo, nil''', '''	cur := int64(rc.wc.Count()) //nolint:gosec
	newo := offset

	if whence == io.SeekCurrent {
		newo += cur
	} else if whence == io.SeekEnd {
		newo += rc.size
	} else if whence != io.SeekStart {
		return 0, errInvalidWhence
	}

	switch {
	case newo < 0:
		return 0, errNegativeSeek
	case newo < cur:
		return 0, errSeekBackwards
	case newo > rc.size:
		return 0, errSeekEOF
	}

	if _, err := io.CopyN(io.Discard, rc, newo-cur); err != nil {
		return 0, fmt.Errorf("sevenzip: error seeking: %w", err)
	}

	return newo, nil'''))
m('mode-if', ('struct.go', '''	switch m & sIFMT {
	case sIFBLK:
		mode |= iofs.ModeDevice
	case sIFCHR:
		mode |= iofs.ModeDevice | iofs.ModeCharDevice
	case sIFDIR:
		mode |= iofs.ModeDir
	case sIFIFO:
		mode |= iofs.ModeNamedPipe
	case sIFLNK:
		mode |= iofs.ModeSymlink
	case sIFREG:
		// nothing to do
	case sIFSOCK:
		mode |= iofs.ModeSocket
	}

	if m&sISGID != 0 {
		mode |= iofs.ModeSetgid
	}

	if m&sISUID != 0 {
		mode |= iofs.ModeSetuid
	}

	if m&sISVTX != 0 {
		mode |= iofs.ModeSticky
	}

	return mode''', '''	if m&sISVTX == sISVTX {
		mode |= iofs.ModeSticky
	}

	if m&sISUID > 0 {
		mode |= iofs.ModeSetuid
	}

	if m&sISGID != 0 {
		mode += iofs.ModeSetgid
	}

	t := m & sIFMT
	if t == sIFBLK || t == sIFCHR {
		mode |= iofs.ModeDevice
		if t == sIFCHR {
			mode |= iofs.ModeCharDevice
		}
	} else if t == sIFDIR {
		mode |= iofs.ModeDir
	} else if t == sIFIFO {
		mode |= iofs.ModeNamedPipe
	} else if t == sIFLNK {
		mode |= iofs.ModeSymlink
	} else if t == sIFSOCK {
		mode |= iofs.ModeSocket
	}

	return mode'''))
m('mode-helper', ('struct.go', '''	// Prefer the POSIX attributes if they're present
	if h.Attributes&0xf0000000 != 0 {
		mode = unixModeToFileMode(h.Attributes >> 16)
	} else {
		mode = msdosModeToFileMode(h.Attributes)
	}

	return
''', '''	if unix := h.Attributes >> 16; unix&sIFMT != 0 {
		return unixModeToFileMode(unix)
	}

	return msdosModeToFileMode(h.Attributes)
'''), ('struct.go', '''	if m&msdosDir != 0 {
		mode = iofs.ModeDir | 0o777
	} else {
		mode = 0o666
	}
''', '''	mode = 0o666

	if m&msdosDir != 0 {
		mode |= iofs.ModeDir | 0o111
	}
'''))
m('mode-map', ('struct.go', '''	switch m & sIFMT {
	case sIFBLK:
		mode |= iofs.ModeDevice
	case sIFCHR:
		mode |= iofs.ModeDevice | iofs.ModeCharDevice
	case sIFDIR:
		mode |= iofs.ModeDir
	case sIFIFO:
		mode |= iofs.ModeNamedPipe
	case sIFLNK:
		mode |= iofs.ModeSymlink
	case sIFREG:
		// nothing to do
	case sIFSOCK:
		mode |= iofs.ModeSocket
	}
''', '''	mode |= unixTypes[m&sIFMT]
'''), ('struct.go', '''//nolint:cyclop
func unixModeToFileMode(''', '''var unixTypes = map[uint32]iofs.FileMode{
	sIFBLK:  iofs.ModeDevice,
	sIFCHR:  iofs.ModeDevice | iofs.ModeCharDevice,
	sIFDIR:  iofs.ModeDir,
	sIFIFO:  iofs.ModeNamedPipe,
	sIFLNK:  iofs.ModeSymlink,
	sIFSOCK: iofs.ModeSocket,
}

//nolint:cyclop
func unixModeToFileMode('''))
m('key-split', ('internal/aes7z/key.go', '''	// The salt is part of the coder properties, appending to it must not
	// overwrite the bytes that follow it
	b := bytes''', '''	key, err := deriveKey(password, cycles, salt)
	if err != nil {
		return nil, err
	}

	cache.Add(ck, key)

	return key, nil
}

func deriveKey(password string, cycles int, salt []byte) ([]byte, error) {
	b := bytes'''), ('internal/aes7z/key.go', '''	_ = cache.Add(ck, key)

	return key, nil''', '''	return key, nil'''))
m('key-literal', ('internal/aes7z/key.go', '''	ck := cacheKey{
		password: password,
		cycles:   cycles,
		salt:     hex.EncodeToString(salt),
	}

	if key, ok := cache.Get(ck); ok {
		return key, nil
	}
''', '''	var ck cacheKey
	ck.salt = string(salt)
	ck.cycles = cycles
	ck.password = password

	cached, found := cache.Get(ck)
	if found {
		return cached, nil
	}
'''), ('internal/aes7z/key.go', '	"encoding/hex"\n', ''), ('internal/aes7z/key.go', '''	b := bytes.NewBuffer(bytes.Clone(salt))
''', '''	b := new(bytes.Buffer)
	b.Write(salt)
'''))
m('key-loop', ('internal/aes7z/key.go', '''		for i := range uint64(1 << cycles) {
			// These will never error
			_, _ = h.Write(b.Bytes())
			_ = binary.Write(h, binary.LittleEndian, i)
		}

		copy(key, h.Sum(nil))''', '''		rounds := uint64(1) << cycles
		for i := uint64(0); i < rounds; i++ {
			h.Write(b.Bytes())
			_ = binary.Write(h, binary.LittleEndian, i)
		}

		key = h.Sum(key[:0])'''))
m('aes-read', ('internal/aes7z/reader.go', '''	var block [aes.BlockSize]byte

	for rc.buf.Len() < len(p) {
		if _, err := io.ReadFull(rc.rc, block[:]); err != nil {
			if errors.Is(err, io.EOF) {
				break
			}

			return 0, fmt.Errorf("aes7z: error reading block: %w", err)
		}

		rc.cbc.CryptBlocks(block[:], block[:])

		_, _ = rc.buf.Write(block[:])
	}
''', '''	block := make([]byte, aes.BlockSize)

	for rc.buf.Len() < len(p) {
		_, err := io.ReadFull(rc.rc, block)
		if errors.Is(err, io.EOF) {
			break
		} else if err != nil {
			return 0, fmt.Errorf("aes7z: error reading block: %w", err)
		}

		rc.cbc.CryptBlocks(block, block)
		rc.buf.Write(block)
	}
'''))
m('aes-new', ('internal/aes7z/reader.go', '''	rc := new(readCloser)

	salt := p[0]>>7&1 + p[1]>>4
	iv := p[0]>>6&1 + p[1]&0x0f

	if len(p) != int(2+salt+iv) {
		return nil, errInsufficientProperties
	}

	rc.salt = p[2 : 2+salt]
	rc.iv = make([]byte, aes.BlockSize)
	copy(rc.iv, p[2+salt:])

	rc.cycles = int(p[0] & 0x3f)
	rc.rc = readers[0]

	return rc, nil''', '''	saltLen := int(p[0]>>7&1) + int(p[1]>>4)
	ivLen := int(p[0]>>6&1) + int(p[1]&0x0f)

	if len(p) != 2+saltLen+ivLen {
		return nil, errInsufficientProperties
	}

	iv := make([]byte, aes.BlockSize)
	copy(iv, p[2+saltLen:])

	return &readCloser{
		rc:     readers[0],
		salt:   p[2 : 2+saltLen],
		iv:     iv,
		cycles: int(p[0] & 0x3f),
	}, nil'''))
m('zstd-get', ('internal/zstd/reader.go', '''	var err error

	r, ok := zstdReaderPool.Get().(*zstd.Decoder)
	if ok {
		if err = r.Reset(readers[0]); err != nil {
			return nil, fmt.Errorf("zstd: error resetting: %w", err)
		}
	} else {
		if r, err = zstd.NewReader(readers[0]); err != nil {
			return nil, fmt.Errorf("zstd: error creating reader: %w", err)
		}

		runtime.SetFinalizer(r, (*zstd.Decoder).Close)
	}

	return &readCloser{
		c: readers[0],
		r: r,
	}, nil''', '''	r, err := acquire(readers[0])
	if err != nil {
		return nil, err
	}

	return &readCloser{c: readers[0], r: r}, nil
}

func acquire(in io.Reader) (*zstd.Decoder, error) {
	if r, ok := zstdReaderPool.Get().(*zstd.Decoder); ok {
		if err := r.Reset(in); err != nil {
			return nil, fmt.Errorf("zstd: error resetting: %w", err)
		}

		return r, nil
	}

	r, err := zstd.NewReader(in)
	if err != nil {
		return nil, fmt.Errorf("zstd: error creating reader: %w", err)
	}

	runtime.SetFinalizer(r, (*zstd.Decoder).Close)

	return r, nil'''))
m('lz4-close', ('internal/lz4/reader.go', '''	if err := rc.c.Close(); err != nil {
		return fmt.Errorf("lz4: error closing: %w", err)
	}

	lz4ReaderPool.Put(rc.r)
	rc.c, rc.r = nil, nil

	return nil''', '''	c, r := rc.c, rc.r

	err := c.Close()
	if err != nil {
		return fmt.Errorf("lz4: error closing: %w", err)
	}

	rc.c = nil
	rc.r = nil

	lz4ReaderPool.Put(r)

	return nil'''), ('internal/lz4/reader.go', '''	r, ok := lz4ReaderPool.Get().(*lz4.Reader)
	if ok {
		r.Reset(readers[0])
	} else {
		r = lz4.NewReader(readers[0])
	}
''', '''	r, ok := lz4ReaderPool.Get().(*lz4.Reader)
	if !ok {
		r = lz4.NewReader(nil)
	}

	r.Reset(readers[0])
'''))
m('bzip2-check', ('internal/bzip2/reader.go', '''	if rc.r == nil {
		return 0, errAlreadyClosed
	}

	n, err := rc.r.Read(p)
	if err != nil && !errors.Is(err, io.EOF) {
		err = fmt.Errorf("bzip2: error reading: %w", err)
	}

	return n, err''', '''	if rc.r == nil || rc.c == nil {
		return 0, errAlreadyClosed
	}

	n, err := rc.r.Read(p)
	switch {
	case err == nil, errors.Is(err, io.EOF):
		return n, err
	default:
		return n, fmt.Errorf("bzip2: error reading: %w", err)
	}'''))
m('arm-loop', ('internal/bra/arm.go', '''	var i int

	for i = 0; i < len(b) & ^(armAlignment-1); i += armAlignment {
''', '''	i := 0
	for ; i+armAlignment <= len(b); i += armAlignment {
'''), ('internal/bra/arm.go', '''		if b[i+3] == 0xeb {
			if encoding {
				v += (c.ip + armPC) >> 2
			} else {
				v -= (c.ip + armPC) >> 2
			}
''', '''		if b[i+3] == 0xeb {
			delta := (c.ip + armPC) >> 2
			if encoding {
				v += delta
			} else {
				v -= delta
			}
'''))
m('ppc-loop', ('internal/bra/ppc.go', '''	var i int

	for i = 0; i < len(b) & ^(ppcAlignment-1); i, c.ip = i+ppcAlignment, c.ip+ppcAlignment {
''', '''	n := len(b) - len(b)%ppcAlignment

	var i int
	for i = 0; i < n; i += ppcAlignment {
		ip := c.ip
		c.ip += ppcAlignment
'''), ('internal/bra/ppc.go', 'v += c.ip', 'v += ip'), ('internal/bra/ppc.go', 'v -= c.ip', 'v -= ip'))
m('sparc-ip', ('internal/bra/sparc.go', 'i, c.ip = i+sparcAlignment, c.ip+sparcAlignment {', 'i += sparcAlignment {'), ('internal/bra/sparc.go', '''		binary.BigEndian.PutUint32(b[i:], v)
''', '''		binary.BigEndian.PutUint32(b[i:], v)

		c.ip += sparcAlignment
'''))
m('arm64-noncont', ('internal/bra/arm64.go', '''			binary.LittleEndian.PutUint32(b[i:], v)

			continue
		}

		v -= 0x90000000

		if v&0x9f000000 == 0 {
''', '''			binary.LittleEndian.PutUint32(b[i:], v)
		} else if v -= 0x90000000; v&0x9f000000 == 0 {
'''))
m('bra-read', ('internal/bra/reader.go', '''	rc.n += rc.conv.Convert(rc.buf.Bytes()[rc.n:], false)

	n, err := rc.buf.Read(p[:min(rc.n, len(p))])
	if err != nil && !errors.Is(err, io.EOF) {
		err = fmt.Errorf("bra: error reading: %w", err)
	}

	rc.n -= n

	return n, err''', '''	pending := rc.buf.Bytes()[rc.n:]
	rc.n += rc.conv.Convert(pending, false)

	if rc.n < len(p) {
		p = p[:rc.n]
	}

	n, err := rc.buf.Read(p)
	rc.n -= n

	if err != nil && !errors.Is(err, io.EOF) {
		return n, fmt.Errorf("bra: error reading: %w", err)
	}

	return n, err'''))
m('delta-ring', ('internal/delta/reader.go', '''	for i := 0; i < n; {
		for j = 0; j < rc.delta && i < n; i++ {
			p[i] = buffer[j] + p[i]
			buffer[j] = p[i]
			j++
		}
	}
''', '''	for i := 0; i < n; i++ {
		if j == rc.delta {
			j = 0
		}

		p[i] += buffer[j]
		buffer[j] = p[i]
		j++
	}
'''))
m('bcj2-dest', ('internal/bcj2/reader.go', '''		var r io.Reader
		if b == 0xe8 {
			r = rc.call
		} else {
			r = rc.jump
		}
''', '''		r := rc.jump
		if b == 0xe8 {
			r = rc.call
		}
'''))
m('bcj2-close', ('internal/bcj2/reader.go', '''	if err := errors.Join(rc.main.Close(), rc.call.Close(), rc.jump.Close(), rc.rd.Close()); err != nil {
		return fmt.Errorf("bcj2: error closing: %w", err)
	}
''', '''	var errs []error
	for _, c := range []io.Closer{rc.main, rc.call, rc.jump, rc.rd} {
		errs = append(errs, c.Close())
	}

	if err := errors.Join(errs...); err != nil {
		return fmt.Errorf("bcj2: error closing: %w", err)
	}
'''))
m('register-table', ('register.go', '''	// Copy
	RegisterDecompressor([]byte{0x00}, Decompressor(newCopyReader))
	// Delta
	RegisterDecompressor([]byte{0x03}, Decompressor(delta.NewReader))
	// LZMA
	RegisterDecompressor([]byte{0x03, 0x01, 0x01}, Decompressor(lzma.NewReader))
''', '''	for _, m := range []struct {
		id    []byte
		dcomp Decompressor
	}{
		{[]byte{0x00}, newCopyReader},
		{[]byte{0x03}, delta.NewReader},
		{[]byte{0x03, 0x01, 0x01}, lzma.NewReader},
	} {
		RegisterDecompressor(m.id, m.dcomp)
	}
'''))
m('register-map', ('register.go', '''	// ARM64
	RegisterDecompressor([]byte{0x0a}, Decompressor(bra.NewARM64Reader))
	// LZMA2
	RegisterDecompressor([]byte{0x21}, Decompressor(lzma2.NewReader))
	// PPMD
	RegisterDecompressor([]byte{0x03, 0x04, 0x01}, Decompressor(ppmd.NewReader))
''', '''	for id, d := range map[string]Decompressor{
		"\\x0a":         bra.NewARM64Reader,
		"\\x21":         lzma2.NewReader,
		"\\x03\\x04\\x01": ppmd.NewReader,
	} {
		RegisterDecompressor([]byte(id), d)
	}
'''))
m('decompressor-assert', ('register.go', '''	di, ok := decompressors.Load(string(method))
	if !ok {
		return nil
	}

	if d, ok := di.(Decompressor); ok {
		return d
	}

	return nil''', '''	di, _ := decompressors.Load(string(method))
	d, _ := di.(Decompressor)

	return d'''))
m('readdir-shape', ('reader.go', '''	n := len(d.files) - d.offset
	if count > 0 && n > count {
		n = count
	}

	if n == 0 {
		if count <= 0 {
			return nil, nil
		}

		return nil, io.EOF
	}

	list := make([]iofs.DirEntry, n)
	for i := range list {
		s, err := d.files[d.offset+i].stat()
		if err != nil {
			return nil, err
		}

		list[i] = s
	}

	d.offset += n

	return list, nil''', '''	rest := d.files[d.offset:]
	if count > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}

		rest = rest[:min(count, len(rest))]
	}

	if len(rest) == 0 {
		return nil, nil
	}

	list := make([]iofs.DirEntry, 0, len(rest))

	for i := range rest {
		s, err := rest[i].stat()
		if err != nil {
			return nil, err
		}

		list = append(list, s)
	}

	d.offset += len(list)

	return list, nil'''))
m('lookup-binary', ('reader.go', '''	i := sort.Search(len(files), func(i int) bool {
		idir, ielem := split(files[i].name)

		return idir > dir || idir == dir && ielem >= elem
	})
''', '''	i := sort.Search(len(files), func(i int) bool {
		idir, ielem := split(files[i].name)
		if idir == dir {
			return elem <= ielem
		}

		return dir < idir
	})
'''))
m('less-if', ('reader.go', '''	return xdir < ydir || xdir == ydir && xelem < yelem''', '''	if xdir != ydir {
		return xdir < ydir
	}

	return xelem < yelem'''))
m('findsig-loop', ('reader.go', '''		for i := 0; ; {
			idx := bytes.Index(chunk[i:n], search)
			if idx == -1 {
				break
			}

			offsets = append(offsets, offset+int64(i+idx))
			if offsets[0] == 0 {
				// If signature is at the beginning, return immediately, it's a regular archive
				return offsets, nil
			}

			i += idx + 1
		}
''', '''		for i := 0; i < n; i++ {
			idx := bytes.Index(chunk[i:n], search)
			if idx < 0 {
				break
			}

			i += idx

			offsets = append(offsets, offset+int64(i))
			if offsets[0] == 0 {
				// If signature is at the beginning, return immediately, it's a regular archive
				return offsets, nil
			}
		}
'''))
m('comment-tail', *[(f, None, '\n// trailing comment\n') for f in ('reader.go', 'struct.go', 'types.go', 'register.go', 'internal/aes7z/key.go', 'internal/bra/reader.go')])
m('noop-stmts', ('reader.go', 'func (fr *fileReader) Close() error {\n', 'func (fr *fileReader) Close() error {\n	_ = 0\n'), ('struct.go', 'func (rc *folderReadCloser) Size() int64 {\n', 'func (rc *folderReadCloser) Size() int64 {\n	_ = 0\n'), ('types.go', '	f := new(filesInfo)\n', '	f := new(filesInfo)\n	if false {\n		return nil, nil\n	}\n'), ('internal/pool/pool.go', '	keys := p.keys()\n', '	_ = len(p.items)\n	keys := p.keys()\n'))

# ---- C08
m('vol-defer', ('reader.go', '''	reader, size, files, err := openReader(afero.NewOsFs(), name)
	if err != nil {
		return nil, err
	}

	r := new(ReadCloser)
	r.p = password

	if err := r.init(reader, size); err != nil {
		errs := make([]error, 0, len(files)+1)
		errs = append(errs, err)

		for _, file := range files {
			errs = append(errs, file.Close())
		}

		return nil, fmt.Errorf("sevenzip: error initialising: %w", errors.Join(errs...))
	}

	r.f = files

	return r, nil''', '''	reader, size, files, err := openReader(afero.NewOsFs(), name)
	if err != nil {
		return nil, err
	}

	r := &ReadCloser{f: files}
	r.p = password

	if err := r.init(reader, size); err != nil {
		return nil, fmt.Errorf("sevenzip: error initialising: %w", errors.Join(err, r.Close()))
	}

	return r, nil'''))
m('vol-deferred', ('reader.go', '''func openReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, error) {
	f, err := fs.Open(filepath.Clean(name))
	if err != nil {
		return nil, 0, nil, fmt.Errorf("sevenzip: error opening: %w", err)
	}

	info, err := f.Stat()
	if err != nil {
		err = errors.Join(err, f.Close())

		return''', '''func openReader(fs afero.Fs, name string) (_ io.ReaderAt, _ int64, files []afero.File, err error) {
	f, err := fs.Open(filepath.Clean(name))
	if err != nil {
		return nil, 0, nil, fmt.Errorf("sevenzip: error opening: %w", err)
	}

	opened := []afero.File{f}

	defer func() {
		if err == nil {
			return
		}

		errs := []error{err}
		for i := len(opened) - 1; i >= 0; i-- {
			errs = append(errs, opened[i].Close())
		}

		err = errors.Join(errs...)
	}()

	info, err := f.Stat()
	if err != nil {
		return'''),
 ('reader.go', '''	files := []afero.File{f}
''', ''''''),
 ('reader.go', '''				errs := make([]error, 0, len(files)+1)
				errs = append(errs, err)

				for _, file := range files {
					errs = append(errs, file.Close())
				}

				return nil, 0, nil, fmt.Errorf("sevenzip: error opening: %w", errors.Join(errs...))''', '''				return nil, 0, nil, fmt.Errorf("sevenzip: error opening: %w", err)'''),
 ('reader.go', '''			files = append(files, f)

			info''', '''			opened = append(opened, f)

			info'''),
 ('reader.go', '''				errs := make([]error, 0, len(files)+1)
				errs = append(errs, err)

				for _, file := range files {
					errs = append(errs, file.Close())
				}

				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))''', '''				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", err)'''),
 ('reader.go', '	return reader, size, files, nil\n}\n\n// OpenReaderWith', '	return reader, size, opened, nil\n}\n\n// OpenReaderWith'))
m('vol-helper-open', ('reader.go', '''			f, err := fs.Open(fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ext), i))
''', '''			f, err := openVolume(fs, strings.TrimSuffix(name, ext), i)
'''), ('reader.go', '''// OpenReaderWithPassword will''', '''func openVolume(fs afero.Fs, base string, i int) (afero.File, error) {
	return fs.Open(fmt.Sprintf("%s.%03d", base, i)) //nolint:wrapcheck
}

// OpenReaderWithPassword will'''))
m('vol-nested', ('reader.go', '''	for _, f := range rc.f {
		errs = append(errs, f.Close())
	}

	err :=''', '''	for i := 0; i < len(rc.f); i++ {
		if cerr := rc.f[i].Close(); cerr != nil {
			errs = append(errs, cerr)
		}
	}

	err :='''))

m('folder-defer', ('struct.go', """	fail := func(err error) (*folderReadCloser, uint32, bool, error) {
		for _, rc := range append(in[input:], out...) {
			if rc != nil {
				err = errors.Join(err, rc.Close())
			}
		}

		return nil, 0, hasEncryption, err
	}
""", """	fail := func(err error) (*folderReadCloser, uint32, bool, error) {
		for _, rc := range in[input:] {
			if rc == nil {
				continue
			}

			err = errors.Join(err, rc.Close())
		}

		for i := range out {
			if out[i] != nil {
				err = errors.Join(err, out[i].Close())
			}
		}

		return nil, 0, hasEncryption, err
	}
"""))
m('folder-move', ('struct.go', "in[j], out[bp.out] = out[bp.out], nil", "bound := out[bp.out]\n			out[bp.out] = nil\n			in[j] = bound"))
m('pool-entry', ('internal/pool/pool.go', """	ent := &entry{offset, rc}
	entry := p.evictList.PushFront(ent)
	p.items[offset] = entry
""", """	p.items[offset] = p.evictList.PushFront(&entry{key: offset, value: rc})
"""))
m('bcj2-close-each', ('internal/bcj2/reader.go', """	if err := errors.Join(rc.main.Close(), rc.call.Close(), rc.jump.Close(), rc.rd.Close()); err != nil {
""", """	merr := rc.main.Close()
	err := errors.Join(merr, rc.call.Close(), rc.jump.Close(), rc.rd.Close())

	if err != nil {
"""))
m('open-seek-shape', ('reader.go', """	if _, err := rc.Seek(f.offset, io.SeekStart); err != nil {
		e := &ReadError{
			Err: err,
		}
""", """	_, err := rc.Seek(f.offset, io.SeekStart)
	if err != nil {
		e := new(ReadError)
		e.Err = err
"""))

m('lzma-closed-flag', ('internal/lzma/reader.go', """	c io.Closer
	r io.Reader
}""", """	c      io.Closer
	r      io.Reader
	closed bool
}"""), ('internal/lzma/reader.go', """	if rc.c == nil || rc.r == nil {
		return errAlreadyClosed
	}
""", """	if rc.closed {
		return errAlreadyClosed
	}
"""), ('internal/lzma/reader.go', """	rc.c, rc.r = nil, nil
""", """	rc.closed = true
"""), ('internal/lzma/reader.go', """	if rc.r == nil {
		return 0, errAlreadyClosed""", """	if rc.closed {
		return 0, errAlreadyClosed"""))
m('ppmd-close-shape', ('internal/ppmd/reader.go', """	var err error
	if rc.c != nil {
		err = rc.c.Close()
		rc.c, rc.r = nil, nil
	}

	if err != nil {
		return fmt.Errorf("ppmd: error closing: %w", err)
	}

	return nil
""", """	if rc.c == nil {
		return nil
	}

	c := rc.c
	rc.c, rc.r = nil, nil

	if err := c.Close(); err != nil {
		return fmt.Errorf("ppmd: error closing: %w", err)
	}

	return nil
"""))
m('bcj2-check-helper', ('internal/bcj2/reader.go', """	if rc.main == nil || rc.call == nil || rc.jump == nil || rc.rd == nil {
		return 0, errAlreadyClosed
	}
""", """	if err := rc.check(); err != nil {
		return 0, err
	}
"""), ('internal/bcj2/reader.go', None, """
func (rc *readCloser) check() error {
	if rc.main == nil || rc.call == nil || rc.jump == nil || rc.rd == nil {
		return errAlreadyClosed
	}

	return nil
}
"""))

m('zstd-getter', ('internal/zstd/reader.go', """	var err error

	r, ok := zstdReaderPool.Get().(*zstd.Decoder)
	if ok {
		if err = r.Reset(readers[0]); err != nil {
			return nil, fmt.Errorf("zstd: error resetting: %w", err)
		}
	} else {
		if r, err = zstd.NewReader(readers[0]); err != nil {
			return nil, fmt.Errorf("zstd: error creating reader: %w", err)
		}

		runtime.SetFinalizer(r, (*zstd.Decoder).Close)
	}
""", """	r, err := decoder(readers[0])
	if err != nil {
		return nil, err
	}
"""), ('internal/zstd/reader.go', None, """
func decoder(in io.Reader) (*zstd.Decoder, error) {
	if r, ok := zstdReaderPool.Get().(*zstd.Decoder); ok {
		if err := r.Reset(in); err != nil {
			return nil, fmt.Errorf("zstd: error resetting: %w", err)
		}

		return r, nil
	}

	r, err := zstd.NewReader(in)
	if err != nil {
		return nil, fmt.Errorf("zstd: error creating reader: %w", err)
	}

	runtime.SetFinalizer(r, (*zstd.Decoder).Close)

	return r, nil
}
"""))
m('lz4-new', ('internal/lz4/reader.go', """	r, ok := lz4ReaderPool.Get().(*lz4.Reader)
	if ok {
		r.Reset(readers[0])
	} else {
		r = lz4.NewReader(readers[0])
	}
""", """	r, ok := lz4ReaderPool.Get().(*lz4.Reader)
	if !ok {
		r = lz4.NewReader(nil)
	}

	r.Reset(readers[0])
"""))
m('lz4-close-order', ('internal/lz4/reader.go', """	lz4ReaderPool.Put(rc.r)
	rc.c, rc.r = nil, nil
""", """	r := rc.r
	rc.c, rc.r = nil, nil

	lz4ReaderPool.Put(r)
"""))

# ---- stream reuse
m('park-helper', ('reader.go', '''		f, rc := fr.f, fr.rc
		fr.rc = nil

		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {
			return fmt.Errorf("sevenzip: error adding to pool: %w", err)
		}
''', '''		rc := fr.rc
		fr.rc = nil

		if err := fr.f.park(offset, rc); err != nil {
			return err
		}
'''), ('reader.go', None, '''
func (f *File) park(at int64, rc util.SizeReadSeekCloser) error {
	if _, err := f.zip.pool[f.folder].Put(at, rc); err != nil {
		return fmt.Errorf("sevenzip: error adding to pool: %w", err)
	}

	return nil
}
'''))
m('fetch-helper', ('reader.go', '''	rc, _ := f.zip.pool[f.folder].Get(f.offset)
	if rc == nil {
		var (
			encrypted bool
			err       error
		)

		rc, _, encrypted, err = f.zip.folderReader(f.zip.si, f.folder)
		if err != nil {
			return nil, &ReadError{
				Encrypted: encrypted,
				Err:       err,
			}
		}
	}
''', '''	rc, err := f.stream()
	if err != nil {
		return nil, err
	}
'''), ('reader.go', None, '''
func (f *File) stream() (util.SizeReadSeekCloser, error) {
	group, start := f.folder, f.offset

	if rc, ok := f.zip.pool[group].Get(start); ok {
		return rc, nil
	}

	rc, _, encrypted, err := f.zip.folderReader(f.zip.si, group)
	if err != nil {
		return nil, &ReadError{
			Encrypted: encrypted,
			Err:       err,
		}
	}

	return rc, nil
}
'''))
m('seek-locals', ('struct.go', '''	if newo < 0 {
		return 0, errNegativeSeek
	}

	if uint64(newo) < rc.wc.Count() {
		return 0, errSeekBackwards
	}

	if newo > rc.Size() {
		return 0, errSeekEOF
	}

	if _, err := io.CopyN(io.Discard, rc, newo-int64(rc.wc.Count())); err != nil { //nolint:gosec
		return 0, fmt.Errorf("sevenzip: error seeking: %w", err)
	}
''', '''	cur := int64(rc.wc.Count()) //nolint:gosec

	switch {
	case newo < 0:
		return 0, errNegativeSeek
	case newo < cur:
		return 0, errSeekBackwards
	case newo > rc.size:
		return 0, errSeekEOF
	case newo == cur:
		return newo, nil
	}

	if skip := newo - cur; skip > 0 {
		if _, err := io.CopyN(io.Discard, rc.ReadCloser, skip); err != nil {
			return 0, fmt.Errorf("sevenzip: error seeking: %w", err)
		}
	}
'''))
m('pool-best', ('internal/pool/pool.go', '''	// Sort keys in descending order
	keys := p.keys()
	sort.Slice(keys, func(i, j int) bool { return keys[i] > keys[j] })

	for _, k := range keys {
		// First key less than offset is the closest
		if k < offset {
			ent := p.items[k]
			_ = p.removeElement(ent, false)

			return ent.Value.(*entry).value, true //nolint:forcetypeassert
		}
	}

	return nil, false
}
''', '''	best, found := int64(0), false

	for k := range p.items {
		if k < offset && (!found || k > best) {
			best, found = k, true
		}
	}

	if !found {
		return nil, false
	}

	ent := p.items[best]
	_ = p.removeElement(ent, false)

	return ent.Value.(*entry).value, true //nolint:forcetypeassert
}
'''), ('internal/pool/pool.go', '''	"sort"
''', ''), ('internal/pool/pool.go', '''func (p *pool) keys() []int64 {
	keys := make([]int64, len(p.items))
	i := 0

	for ent := p.evictList.Back(); ent != nil; ent = ent.Prev() {
		keys[i] = ent.Value.(*entry).key //nolint:forcetypeassert
		i++
	}

	return keys
}

''', ''))
m('pool-list', ('internal/pool/pool.go', '''	// Sort keys in descending order
	keys := p.keys()
	sort.Slice(keys, func(i, j int) bool { return keys[i] > keys[j] })

	for _, k := range keys {
		// First key less than offset is the closest
		if k < offset {
			ent := p.items[k]
			_ = p.removeElement(ent, false)

			return ent.Value.(*entry).value, true //nolint:forcetypeassert
		}
	}

	return nil, false
}
''', '''	var best *list.Element

	for el := p.evictList.Front(); el != nil; el = el.Next() {
		k := el.Value.(*entry).key //nolint:forcetypeassert
		if k >= offset {
			continue
		}

		if best == nil || k > best.Value.(*entry).key { //nolint:forcetypeassert
			best = el
		}
	}

	if best == nil {
		return nil, false
	}

	_ = p.removeElement(best, false)

	return best.Value.(*entry).value, true //nolint:forcetypeassert
}
'''), ('internal/pool/pool.go', '''	"sort"
''', ''), ('internal/pool/pool.go', '''func (p *pool) keys() []int64 {
	keys := make([]int64, len(p.items))
	i := 0

	for ent := p.evictList.Back(); ent != nil; ent = ent.Prev() {
		keys[i] = ent.Value.(*entry).key //nolint:forcetypeassert
		i++
	}

	return keys
}

''', ''))

# C17, C26
m('parents-break', ('reader.go', '''				dirs[dir] = struct{}{}
			}
''', '''				if _, ok := dirs[dir]; ok {
					break
				}

				dirs[dir] = struct{}{}
			}
'''))
m('parents-helper', ('reader.go', '''			for dir := path.Dir(name); dir != "."; dir = path.Dir(dir) {
				dirs[dir] = struct{}{}
			}
''', '''			addParents(dirs, name)
'''), ('reader.go', None, '''
func addParents(dirs map[string]struct{}, name string) {
	for {
		name = path.Dir(name)
		if name == "." {
			return
		}

		dirs[name] = struct{}{}
	}
}
'''))
m('listable', ('reader.go', '''			if name == "." || !iofs.ValidPath(name) {
				continue
			}
''', '''			if !listable(name) {
				continue
			}
'''), ('reader.go', None, '''
func listable(name string) bool {
	return iofs.ValidPath(name) && name != "."
}
'''))
m('list-add', ('reader.go', '''			idx := len(z.fileList)
			entry := fileListEntry{
				name:  name,
				file:  file,
				isDir: isDir,
			}
			z.fileList = append(z.fileList, entry)

			if isDir {
				knownDirs[name] = idx
			} else {
				files[name] = idx
			}
''', '''			if isDir {
				knownDirs[name] = len(z.fileList)
			} else {
				files[name] = len(z.fileList)
			}

			z.add(name, file, isDir)
'''), ('reader.go', '''					entry := fileListEntry{
						name:  dir,
						file:  nil,
						isDir: true,
					}
					z.fileList = append(z.fileList, entry)
''', '''					z.add(dir, nil, true)
'''), ('reader.go', None, '''
func (z *Reader) add(name string, file *File, isDir bool) {
	z.fileList = append(z.fileList, fileListEntry{name: name, file: file, isDir: isDir})
}
'''))
m('list-known', ('reader.go', '''			if idx, ok := files[name]; ok {
				z.fileList[idx].isDup = true

				continue
			}

			if idx, ok := knownDirs[name]; ok {
				z.fileList[idx].isDup = true

				continue
			}
''', '''			idx, ok := files[name]
			if !ok {
				idx, ok = knownDirs[name]
			}

			if ok {
				z.fileList[idx].isDup = true

				continue
			}
'''), ('reader.go', '''			idx := len(z.fileList)
			entry''', '''			idx = len(z.fileList)
			entry'''))
m('list-known-switch', ('reader.go', '''			if _, ok := knownDirs[dir]; !ok {
				if idx, ok := files[dir]; ok {
					z.fileList[idx].isDup = true
				} else {
					entry := fileListEntry{
						name:  dir,
						file:  nil,
						isDir: true,
					}
					z.fileList = append(z.fileList, entry)
				}
			}
''', '''			if _, ok := knownDirs[dir]; ok {
				continue
			}

			if idx, ok := files[dir]; ok {
				z.fileList[idx].isDup = true

				continue
			}

			z.fileList = append(z.fileList, fileListEntry{name: dir, isDir: true})
'''))
m('sort-stable', ('reader.go', 'sort.Slice(z.fileList', 'sort.SliceStable(z.fileList'))
m('sort-inline', ('reader.go', '''func(i, j int) bool { return fileEntryLess(z.fileList[i].name, z.fileList[j].name) })''', '''func(i, j int) bool {
			idir, ielem := split(z.fileList[i].name)
			jdir, jelem := split(z.fileList[j].name)

			if idir != jdir {
				return idir < jdir
			}

			return ielem < jelem
		})'''), ('reader.go', '''func fileEntryLess(x, y string) bool {
	xdir, xelem := split(x)
	ydir, yelem := split(y)

	return xdir < ydir || xdir == ydir && xelem < yelem
}
''', ''))
m('sort-func', ('reader.go', '''		sort.Slice(z.fileList, func(i, j int) bool { return fileEntryLess(z.fileList[i].name, z.fileList[j].name) })''', '''		slices.SortFunc(z.fileList, func(x, y fileListEntry) int { return compareNames(x.name, y.name) })'''), ('reader.go', '''func fileEntryLess(x, y string) bool {
	xdir, xelem := split(x)
	ydir, yelem := split(y)

	return xdir < ydir || xdir == ydir && xelem < yelem
}
''', '''func compareNames(x, y string) int {
	xdir, xelem := split(x)
	ydir, yelem := split(y)

	if c := strings.Compare(xdir, ydir); c != 0 {
		return c
	}

	return strings.Compare(xelem, yelem)
}
'''), ('reader.go', '	"sort"\n', '	"slices"\n	"sort"\n'))
m('split-last', ('reader.go', '''	i := len(name) - 1
	for i >= 0 && name[i] != '/' {
		i--
	}

	if i < 0 {''', '''	i := strings.LastIndexByte(name, '/')
	if i < 0 {'''))
m('split-down', ('reader.go', '''	i := len(name) - 1
	for i >= 0 && name[i] != '/' {
		i--
	}

	if i < 0 {
		return ".", name
	}

	return name[:i], name[i+1:]
''', '''	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' {
			return name[:i], name[i+1:]
		}
	}

	return ".", name
'''))
m('readdir-from', ('reader.go', '''	j := sort.Search(len(files), func(j int) bool {
		jdir, _ := split(files[j].name)

		return jdir > dir
	})

	return files[i:j]''', '''	n := sort.Search(len(files)-i, func(j int) bool {
		jdir, _ := split(files[i+j].name)

		return jdir > dir
	})

	return files[i : i+n]'''))
m('readdir-scan', ('reader.go', '''	j := sort.Search(len(files), func(j int) bool {
		jdir, _ := split(files[j].name)

		return jdir > dir
	})
''', '''	j := i
	for j < len(files) {
		if jdir, _ := split(files[j].name); jdir != dir {
			break
		}

		j++
	}
'''))
m('lookup-negated', ('reader.go', '''		return idir > dir || idir == dir && ielem >= elem''', '''		if idir != dir {
			return idir > dir
		}

		return !(ielem < elem)'''))
m('lookup-early', ('reader.go', '''	if i < len(files) {
		fname := files[i].name
		if fname == name || len(fname) == len(name)+1 && fname[len(name)] == '/' && fname[:len(name)] == name {
			return &files[i]
		}
	}

	return nil
''', '''	if i == len(files) || files[i].name != name {
		return nil
	}

	return &files[i]
'''))
m('readdir-append', ('reader.go', '''	list := make([]iofs.DirEntry, n)
	for i := range list {
		s, err := d.files[d.offset+i].stat()
		if err != nil {
			return nil, err
		}

		list[i] = s
	}
''', '''	list := make([]iofs.DirEntry, 0, n)

	for _, f := range d.files[d.offset : d.offset+n] {
		s, err := f.stat()
		if err != nil {
			return nil, err
		}

		list = append(list, s)
	}
'''))
m('readdir-rest', ('reader.go', '''	list := make([]iofs.DirEntry, n)
	for i := range list {
		s, err := d.files[d.offset+i].stat()
		if err != nil {
			return nil, err
		}

		list[i] = s
	}
''', '''	list, files := make([]iofs.DirEntry, n), d.files[d.offset:]
	for i := 0; i < n; i++ {
		s, err := files[i].stat()
		if err != nil {
			return nil, err
		}

		list[i] = s
	}
'''))
m('readdir-order', ('reader.go', '''	n := len(d.files) - d.offset
	if count > 0 && n > count {
		n = count
	}

	if n == 0 {
		if count <= 0 {
			return nil, nil
		}

		return nil, io.EOF
	}
''', '''	n := len(d.files) - d.offset
	if n == 0 && count > 0 {
		return nil, io.EOF
	}

	if n == 0 {
		return nil, nil
	}

	if count > 0 {
		n = min(n, count)
	}
'''))
m('open-patherror', ('reader.go', '''		return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrInvalid}''', '''		return nil, openError(name, iofs.ErrInvalid)'''), ('reader.go', '''		return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrNotExist}''', '''		return nil, openError(name, iofs.ErrNotExist)'''), ('reader.go', None, '''
func openError(name string, err error) error {
	return &iofs.PathError{Op: "open", Path: name, Err: err}
}
'''))
m('open-lookup-first', ('reader.go', '''	if !iofs.ValidPath(name) {
		return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrInvalid}
	}

	e := z.openLookup(name)
	if e == nil {
		return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrNotExist}
	}
''', '''	var e *fileListEntry

	err := iofs.ErrInvalid
	if iofs.ValidPath(name) {
		e, err = z.openLookup(name), iofs.ErrNotExist
	}

	if e == nil {
		return nil, &iofs.PathError{Op: "open", Path: name, Err: err}
	}
'''), ('reader.go', '''	rc, err := e.file.Open()
	if err != nil {
		return nil, err
	}

	return rc.(iofs.File), nil //nolint:forcetypeassert''', '''	rc, err := e.file.Open()
	if err != nil {
		return nil, err
	}

	f, _ := rc.(iofs.File)

	return f, nil'''))
m('open-dir-helper', ('reader.go', '''	if e.isDir {
		return &openDir{e, z.openReadDir(name), 0}, nil
	}

	rc, err := e.file.Open()
	if err != nil {
		return nil, err
	}

	return rc.(iofs.File), nil //nolint:forcetypeassert
}''', '''	return z.openEntry(e, name)
}

func (z *Reader) openEntry(e *fileListEntry, name string) (iofs.File, error) {
	if !e.isDir {
		rc, err := e.file.Open()
		if err != nil {
			return nil, err
		}

		return rc.(iofs.File), nil //nolint:forcetypeassert
	}

	return &openDir{e: e, files: z.openReadDir(name)}, nil
}'''))
m('name-shape', ('struct.go', 'func (fi headerFileInfo) Name() string        { return path.Base(toValidName(fi.fh.Name)) }', '''func (fi headerFileInfo) Name() string {
	name := toValidName(fi.fh.Name)
	_, elem := split(name)

	return elem
}
'''), ('struct.go', '	"path"\n', ''))

# volumes (C21)
_VOLN = 'f, err := fs.Open(fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ext), i))'
m('vol-name-helper', ('reader.go', _VOLN, 'f, err := fs.Open(volumeName(name, i))'), ('reader.go', 'func openReader(', '''func volumeName(name string, i int) string {
	return fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ".001"), i)
}

func openReader('''))
m('vol-name-cut', ('reader.go', _VOLN, 'f, err := fs.Open(name[:len(name)-len("001")] + fmt.Sprintf("%03d", i))'))
m('vol-name-clean', ('reader.go', _VOLN, 'f, err := fs.Open(filepath.Clean(fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ext), i)))'))
m('vol-number-len', ('reader.go', 'for i := 2; true; i++ {', 'for {'), ('reader.go', _VOLN, 'f, err := fs.Open(fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ext), len(files)+1))'))
m('vol-number-before', ('reader.go', 'for i := 2; true; i++ {', 'for i := 1; true; {\n			i++\n'))
m('vol-suffix', ('reader.go', 'if ext := filepath.Ext(name); ext == ".001" {', 'if ext := ".001"; strings.HasSuffix(name, ext) {'))
m('vol-early', ('reader.go', '	if ext := filepath.Ext(name); ext == ".001" {', '''	ext := filepath.Ext(name)
	if ext != ".001" {
		return f, info.Size(), files, nil
	}

	{'''), ('reader.go', '	return reader, size, files, nil\n', '	return reader, size, files, nil\n'))
m('vol-isnotexist', ('reader.go', 'if errors.Is(err, iofs.ErrNotExist) {', 'if os.IsNotExist(err) {'), ('reader.go', '	"path/filepath"\n', '	"os"\n	"path/filepath"\n'))
m('vol-empty', ('reader.go', '			sr = append(sr, io', '			if info.Size() == 0 {\n				continue // nothing to add\n			}\n\n			sr = append(sr, io'))
m('vol-section-helper', ('reader.go', 'sr = append(sr, io.NewSectionReader(f, 0, info.Size()))', 'sr = append(sr, section(f, info))'), ('reader.go', 'func openReader(', '''func section(f afero.File, info iofs.FileInfo) readerutil.SizeReaderAt {
	return io.NewSectionReader(f, 0, info.Size())
}

func openReader('''))
m('vol-two-loops', ('reader.go', '''			info, err = f.Stat()
			if err != nil {
				errs := make([]error, 0, len(files)+1)
				errs = append(errs, err)

				for _, file := range files {
					errs = append(errs, file.Close())
				}

				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))
			}

			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))
		}
''', '''		}

		for _, f := range files[1:] {
			info, err = f.Stat()
			if err != nil {
				errs := make([]error, 0, len(files)+1)
				errs = append(errs, err)

				for _, file := range files {
					errs = append(errs, file.Close())
				}

				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))
			}

			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))
		}
'''))
m('vol-volumes-append', ('reader.go', '''	volumes := make([]string, len(rc.f))
	for idx, f := range rc.f {
		volumes[idx] = f.Name()
	}
''', '''	var volumes []string

	for i := 0; i < len(rc.f); i++ {
		volumes = append(volumes, rc.f[i].Name())
	}
'''))
m('vol-volumes-nil', ('reader.go', '	volumes := make([]string, len(rc.f))\n', '	if len(rc.f) == 0 {\n		return nil\n	}\n\n	volumes := make([]string, len(rc.f))\n'))

# --- alignment of members and substreams
m('al-hdr-pos', ('types.go', '''		if h.filesInfo.file[i].isEmptyStream {
			continue
		}

		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32, err = h.streamsInfo.FileFolderAndSize(j)
		if err != nil {
			return nil, err
		}

		j++
''', '''		if !h.filesInfo.file[i].isEmptyStream {
			f := &h.filesInfo.file[i]

			_, size, crc, err := h.streamsInfo.FileFolderAndSize(j)
			if err != nil {
				return nil, err
			}

			f.UncompressedSize = size
			f.CRC32 = crc

			j++
		}
'''))
m('al-hdr-helper', ('types.go', '''		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32, err = h.streamsInfo.FileFolderAndSize(j)
		if err != nil {
			return nil, err
		}

		j++
''', '''		if err = h.fill(&h.filesInfo.file[i], j); err != nil {
			return nil, err
		}

		j++
'''), ('types.go', None, '''
func (h *header) fill(f *FileHeader, n int) (err error) {
	_, f.UncompressedSize, f.CRC32, err = h.streamsInfo.FileFolderAndSize(n)

	return
}
'''))
m('al-hdr-loop-helper', ('types.go', '''	j := 0

	for i := range h.filesInfo.file {
		if h.filesInfo.file[i].isEmptyStream {
			continue
		}

		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32, err = h.streamsInfo.FileFolderAndSize(j)
		if err != nil {
			return nil, err
		}

		j++
	}

	return h, nil''', '''	if err = fillSizes(h); err != nil {
		return nil, err
	}

	return h, nil'''), ('types.go', None, '''
func fillSizes(h *header) error {
	next := -1

	for i := 0; i < len(h.filesInfo.file); i++ {
		f := &h.filesInfo.file[i]
		if f.isEmptyStream {
			continue
		}

		next++

		var err error
		if _, f.UncompressedSize, f.CRC32, err = h.streamsInfo.FileFolderAndSize(next); err != nil {
			return err
		}
	}

	return nil
}
'''))
m('al-hasdata', ('reader.go', 'if !fh.isEmptyStream && !fh.isEmptyFile {', 'if fh.hasData() {'), ('types.go', '		if h.filesInfo.file[i].isEmptyStream {\n			continue\n		}\n\n		_,', '		if !h.filesInfo.file[i].hasData() {\n			continue\n		}\n\n		_,'), ('types.go', None, '''
func (h *FileHeader) hasData() bool { return !(h.isEmptyStream || h.isEmptyFile) }
'''))
m('al-offsets-map', ('reader.go', 'folder, offset := 0, int64(0)', 'offsets := make(map[int]int64)'), ('reader.go', '''				if f.folder != folder {
					offset = 0
				}

				f.offset = offset
				offset += int64(f.UncompressedSize) //nolint:gosec
				folder = f.folder
''', '''				f.offset = offsets[f.folder]
				offsets[f.folder] += int64(f.UncompressedSize) //nolint:gosec
'''))
m('al-off-order', ('reader.go', '''				if f.folder != folder {
					offset = 0
				}

				f.offset = offset
				offset += int64(f.UncompressedSize) //nolint:gosec
				folder = f.folder
				j++
''', '''				j++

				if folder == f.folder {
					f.offset = offset
				} else {
					folder, f.offset = f.folder, 0
				}

				offset = f.offset + int64(fh.UncompressedSize) //nolint:gosec
'''))
m('al-off-minus', ('reader.go', 'folder, offset := 0, int64(0)', 'folder, offset := -1, int64(0)'))
m('al-off-locals', ('reader.go', '''				f.folder, _, _, err = header.streamsInfo.FileFolderAndSize(j)
				if err != nil {
					return err
				}
''', '''				group, size, _, err := header.streamsInfo.FileFolderAndSize(j)
				if err != nil {
					return err
				}

				f.folder = group
'''), ('reader.go', 'offset += int64(f.UncompressedSize)', 'offset += int64(size)'))
m('al-look-sub', ('struct.go', '''		total := uint64(0)

		for folder, streams = range si.subStreamsInfo.streams {
			total += streams
			if uint64(file) < total { //nolint:gosec
				break
			}
		}

		if uint64(file) >= total { //nolint:gosec
			return 0, 0, 0, errMissingSubStream
		}
''', '''		left, found := uint64(file), false //nolint:gosec

		for folder, streams = range si.subStreamsInfo.streams {
			if left < streams {
				found = true

				break
			}

			left -= streams
		}

		if !found {
			return 0, 0, 0, errMissingSubStream
		}
'''))
m('al-look-helper', ('struct.go', '''		total := uint64(0)

		for folder, streams = range si.subStreamsInfo.streams {
			total += streams
			if uint64(file) < total { //nolint:gosec
				break
			}
		}

		if uint64(file) >= total { //nolint:gosec
			return 0, 0, 0, errMissingSubStream
		}
''', '''		var ok bool
		if folder, streams, ok = si.subStreamsInfo.group(file); !ok {
			return 0, 0, 0, errMissingSubStream
		}
'''), ('struct.go', None, '''
func (s *subStreamsInfo) group(file int) (int, uint64, bool) {
	for i, total := 0, uint64(0); i < len(s.streams); i++ {
		total += s.streams[i]
		if total > uint64(file) { //nolint:gosec
			return i, s.streams[i], true
		}
	}

	return 0, 0, false
}
'''))
m('al-look-switch', ('struct.go', '	if streams == 1 {\n', '	if streams < 2 {\n'))
m('al-look-early', ('struct.go', '''		// Each folder contains exactly one file
		if file >= len(si.unpackInfo.folder) {
			return 0, 0, 0, errMissingSubStream
		}

		folder = file
	}
''', '''		// Each folder contains exactly one file
		if file >= len(si.unpackInfo.folder) {
			return 0, 0, 0, errMissingSubStream
		}

		if len(si.unpackInfo.digest) > 0 {
			crc = si.unpackInfo.digest[file]
		}

		return file, si.unpackInfo.folder[file].unpackSize(), crc, nil
	}
'''))
m('al-size-append', ('types.go', '''		s.size = make([]uint64, files)
		k := 0
''', '''		k := 0
		s.size = make([]uint64, files)
'''), ('types.go', '''			remaining := folder[i].unpackSize()

			for j := uint64(1); j < s.streams[i]; j++ {
				if s.size[k], err = readUint64(r); err != nil {
					return nil, err
				}

				if s.size[k] > remaining {
					return nil, errInvalidSubStreamSize
				}

				remaining -= s.size[k]
				k++
			}

			s.size[k] = remaining
			k++
''', '''			left := folder[i].unpackSize()

			for n := s.streams[i] - 1; n > 0; n-- {
				size, err := readUint64(r)
				if err != nil {
					return nil, err
				}

				if left < size {
					return nil, errInvalidSubStreamSize
				}

				s.size[k] = size
				left -= size
				k++
			}

			s.size[k] = left
			k++
'''))
m('al-size-sum', ('types.go', '''			remaining := folder[i].unpackSize()

			for j := uint64(1); j < s.streams[i]; j++ {
				if s.size[k], err = readUint64(r); err != nil {
					return nil, err
				}

				if s.size[k] > remaining {
					return nil, errInvalidSubStreamSize
				}

				remaining -= s.size[k]
				k++
			}

			s.size[k] = remaining
			k++
''', '''			total, sum := folder[i].unpackSize(), uint64(0)

			for j := uint64(0); j+1 < s.streams[i]; j++ {
				if s.size[k], err = readUint64(r); err != nil {
					return nil, err
				}

				if s.size[k] > total-sum {
					return nil, errInvalidSubStreamSize
				}

				sum += s.size[k]
				k++
			}

			s.size[k] = total - sum
			k++
'''))
m('al-size-helper', ('types.go', '''		s.size = make([]uint64, files)
		k := 0

		for i := range s.streams {
			if s.streams[i] == 0 {
				continue
			}

			remaining := folder[i].unpackSize()

			for j := uint64(1); j < s.streams[i]; j++ {
				if s.size[k], err = readUint64(r); err != nil {
					return nil, err
				}

				if s.size[k] > remaining {
					return nil, errInvalidSubStreamSize
				}

				remaining -= s.size[k]
				k++
			}

			s.size[k] = remaining
			k++
		}
''', '''		if s.size, err = readSubSizes(r, folder, s.streams, files); err != nil {
			return nil, err
		}
'''), ('types.go', None, '''
func readSubSizes(r util.Reader, folder []*folder, streams []uint64, files uint64) ([]uint64, error) {
	sizes := make([]uint64, files)
	k := 0

	for i, n := range streams {
		if n == 0 {
			continue
		}

		remaining := folder[i].unpackSize()

		for ; n > 1; n-- {
			size, err := readUint64(r)
			if err != nil {
				return nil, err
			}

			if size > remaining {
				return nil, errInvalidSubStreamSize
			}

			sizes[k] = size
			remaining -= size
			k++
		}

		sizes[k] = remaining
		k++
	}

	return sizes, nil
}
'''))
m('al-size-if', ('types.go', '''			if s.streams[i] == 0 {
				continue
			}

			remaining''', '''			if s.streams[i] < 1 {
				continue
			}

			remaining'''))
m('al-pack-flat', ('struct.go', '''	for i, k := 0, uint64(0); i < folder; i++ {
		for j := k; j < k+si.unpackInfo.folder[i].packedStreams; j++ {
			offset += si.packInfo.size[j]
		}

		k += si.unpackInfo.folder[i].packedStreams
	}

	return int64''', '''	first := uint64(0)
	for _, f := range si.unpackInfo.folder[:folder] {
		first += f.packedStreams
	}

	for _, size := range si.packInfo.size[:first] {
		offset += size
	}

	return int64'''))
m('al-pack-k', ('struct.go', '''	for i, k := 0, uint64(0); i < folder; i++ {
		for j := k; j < k+si.unpackInfo.folder[i].packedStreams; j++ {
			offset += si.packInfo.size[j]
		}

		k += si.unpackInfo.folder[i].packedStreams
	}

	return int64''', '''	k := 0

	for i := range folder {
		for range si.unpackInfo.folder[i].packedStreams {
			offset += si.packInfo.size[k]
			k++
		}
	}

	return int64'''))
m('al-pack-pos', ('struct.go', '	offset := uint64(0)\n\n	for i, k', '	offset := si.packInfo.position\n\n	for i, k'), ('struct.go', 'int64(si.packInfo.position + offset)', 'int64(offset)'))
m('al-in-base', ('struct.go', '	offset := int64(0)\n\n	for i, input', '	offset := si.folderOffset(folder)\n\n	for i, input'), ('struct.go', 'si.folderOffset(folder)+offset, size', 'offset, size'))
m('al-in-streams', ('struct.go', 'packedOffset += len(si.unpackInfo.folder[i].packed)', 'packedOffset += int(si.unpackInfo.folder[i].packedStreams)'))
m('al-in-next', ('struct.go', '''	for i, input := range f.packed {
		if input >= f.in || packedOffset+i >= len(si.packInfo.size) {
			return nil, 0, false, errInvalidPackedStream
		}

		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
''', '''	for _, input := range f.packed {
		if input >= f.in || packedOffset >= len(si.packInfo.size) {
			return nil, 0, false, errInvalidPackedStream
		}

		size := int64(si.packInfo.size[packedOffset]) //nolint:gosec
		packedOffset++
'''))
m('vol-os-notexist', ('reader.go', 'if errors.Is(err, iofs.ErrNotExist) {', 'if errors.Is(err, os.ErrNotExist) {'), ('reader.go', '	"path/filepath"\n', '	"os"\n	"path/filepath"\n'))

# --- C02
m('sz-inline-check', ('types.go', """		files += v

		if err := checkUint64(files, false); err != nil {
			return nil, err
		}
""", """		files += v

		if files > math.MaxUint32 || files > uint64(math.MaxInt) {
			return nil, errUint64TooLarge
		}
"""))
m('sz-check-list', ('types.go', """	if err := checkUint64(f.in, true); err != nil {
		return nil, err
	}

	if err := checkUint64(f.out, true); err != nil {
		return nil, err
	}
""", """	if err := checkAll(f.in, f.out); err != nil {
		return nil, err
	}
"""), ('types.go', None, """
func checkAll(vs ...uint64) error {
	for _, v := range vs {
		if err := checkUint64(v, true); err != nil {
			return err
		}
	}

	return nil
}
"""))
m('sz-prealloc-generic', ('types.go', 'make([]uint64, 0, min(count, 1024))', 'prealloc[uint64](count, 1024)'), ('types.go', 'make([]bool, 0, min(count, 1024))', 'prealloc[bool](count, 1024)'), ('types.go', 'make([]*coder, 0, min(coders, 16))', 'prealloc[*coder](coders, 16)'), ('types.go', None, """
func prealloc[T any](n, limit uint64) []T {
	return make([]T, 0, min(n, limit))
}
"""))
m('sz-make-generic', ('types.go', 'attributes := make([]uint32, count)', 'attributes := list[uint32](count)'), ('types.go', 'f.size = make([]uint64, total)', 'f.size = list[uint64](total)'), ('types.go', 'f.file = make([]FileHeader, files)', 'f.file = list[FileHeader](files)'), ('types.go', None, """
func list[T any](n uint64) []T {
	return make([]T, n)
}
"""))
m('sz-cap-helper', ('types.go', 'make([]string, 0, min(count, 1024))', 'make([]string, 0, reserve(count))'), ('types.go', None, """
func reserve(n uint64) int {
	if n > 1024 {
		return 1024
	}

	return int(n) //nolint:gosec
}
"""))
m('sz-valid-bool', ('types.go', """	if err := checkUint64(v, nonZero); err != nil {
		return 0, err
	}

	return v, nil
""", """	if !fits(v) {
		return 0, errUint64TooLarge
	}

	if nonZero && v == 0 {
		return 0, errUint64NonZero
	}

	return v, nil
"""), ('types.go', None, """
func fits(v uint64) bool {
	return v <= math.MaxUint32 && v <= uint64(math.MaxInt)
}
"""))
m('sz-guard-le', ('types.go', """	if v > uint64(math.MaxInt) || v > math.MaxUint32 {
		return errUint64TooLarge
	}

	return nil
""", """	if v <= min(uint64(math.MaxInt), math.MaxUint32) {
		return nil
	}

	return errUint64TooLarge
"""))
m('sz-sum-helper', ('types.go', """		total := uint64(0)
		for _, c := range f.coder {
			total += c.out
		}

		if err := checkUint64(total, true); err != nil {
			return nil, err
		}
""", """		total, err := f.outputs()
		if err != nil {
			return nil, err
		}
"""), ('types.go', None, """
func (f *folder) outputs() (uint64, error) {
	var total uint64

	for _, c := range f.coder {
		total += c.out
	}

	if err := checkUint64(total, true); err != nil {
		return 0, err
	}

	return total, nil
}
"""))
m('sz-int', ('types.go', """	crcs := make([]uint32, count)

	for i := range defined""", """	n := int(count) //nolint:gosec
	crcs := make([]uint32, n)

	for i := range defined"""))
m('sz-defined', ('types.go', 'attributes := make([]uint32, count)', 'attributes := make([]uint32, len(defined))'))
m('sz-local-sums', ('types.go', """		f.in += coder.in
		f.out += coder.out
	}

	if err := checkUint64(f.in, true); err != nil {
		return nil, err
	}

	if err := checkUint64(f.out, true); err != nil {
		return nil, err
	}
""", """		in += coder.in
		out += coder.out
	}

	if err := checkUint64(in, true); err != nil {
		return nil, err
	}

	if err := checkUint64(out, true); err != nil {
		return nil, err
	}

	f.in, f.out = in, out
"""), ('types.go', '	f.coder = make([]*coder,', '	var in, out uint64\n\n	f.coder = make([]*coder,'))
m('sz-recheck-packed', ('types.go', """	if f.in < f.out {
		return nil, errInvalidBindPair
	}

	bindPairs := f.out - 1
""", """	bindPairs := f.out - 1

	if bindPairs >= f.in {
		return nil, errInvalidBindPair
	}
"""))

