#!/usr/bin/env python3
"""Regenerates /verif/seeded: one planted bug per entry (not used by any check)."""
import json, os, subprocess, sys, shutil, tempfile

OUT = os.environ.get('OUT', '/verif/seeded')
HELP = r'''
package sevenzip

import (
	"bytes"
	"encoding/binary"
	"hash/crc32"
)

// 7z archive pieces for the demonstrations.
func zMk(packed, hdr []byte) []byte {
	var sh bytes.Buffer
	binary.Write(&sh, binary.LittleEndian, uint64(len(packed)))
	binary.Write(&sh, binary.LittleEndian, uint64(len(hdr)))
	binary.Write(&sh, binary.LittleEndian, crc32.ChecksumIEEE(hdr))
	var b bytes.Buffer
	b.Write([]byte{'7', 'z', 0xbc, 0xaf, 0x27, 0x1c, 0, 4})
	binary.Write(&b, binary.LittleEndian, crc32.ChecksumIEEE(sh.Bytes()))
	b.Write(sh.Bytes())
	b.Write(packed)
	b.Write(hdr)
	return b.Bytes()
}

func zCat(xs ...interface{}) []byte {
	var o []byte
	for _, x := range xs {
		switch v := x.(type) {
		case int:
			o = append(o, byte(v))
		case []byte:
			o = append(o, v...)
		case string:
			o = append(o, v...)
		}
	}
	return o
}

func zNum(v uint64) []byte { b := make([]byte, 9); b[0] = 0xff; binary.LittleEndian.PutUint64(b[1:], v); return b }

func zNames(ns ...string) []byte {
	var o []byte
	for _, n := range ns {
		for _, r := range n {
			o = append(o, byte(r), byte(r>>8))
		}
		o = append(o, 0, 0)
	}
	return zCat(0x11, zNum(uint64(len(o)+1)), 0, o)
}

func zOpen(b []byte) (*Reader, error) { return NewReader(bytes.NewReader(b), int64(len(b))) }

// zCopy makes an archive with one folder per element of groups, each with the
// Copy method and the given member contents, members named a, b, c...
func zCopy(groups ...[]string) []byte {
	var packed, folders, usizes, streams, subsizes, psizes []byte
	var ns []string
	n := 0
	for _, g := range groups {
		all := ""
		for i, s := range g {
			all += s
			if i < len(g)-1 {
				subsizes = zCat(subsizes, zNum(uint64(len(s))))
			}
			ns = append(ns, string(rune('a'+n)))
			n++
		}
		packed = append(packed, all...)
		folders = zCat(folders, 1, 1, 0) // one coder, id size 1, Copy
		usizes = zCat(usizes, zNum(uint64(len(all))))
		psizes = zCat(psizes, zNum(uint64(len(all))))
		streams = zCat(streams, zNum(uint64(len(g))))
	}
	sub := zCat(8, 0x0d, streams, 9, subsizes, 0)
	hdr := zCat(1, 4,
		6, 0, len(groups), 9, psizes, 0,
		7, 0x0b, len(groups), 0, folders, 0x0c, usizes, 0,
		sub, 0,
		5, n, zNames(ns...), 0, 0)
	return zMk(packed, hdr)
}
'''
DEMO = '''#!/bin/bash
# Exit 0 when the property holds, nonzero otherwise. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
{
echo '{"Replace": {'
sep=
for f in "$D"/*.go.txt; do
  b=$(basename "$f" .go.txt)
  printf '%s"%s/%sseed_%s_test.go": "%s"' "$sep" "$R" "@DIR@" "$b" "$f"
  sep=,
done
echo '}}'
} > "$T/overlay.json"
exec_test() { timeout 200 go test @FLAGS@ -vet=off -overlay "$T/overlay.json" -count=1 -run '^TestSeeded$' "./@DIR@" ; }
exec_test
'''
seeds = []
def seed(id, prop, edits, needs, breaks, test, dir='', flags='', helper=True):
    seeds.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, test=test, dir=dir, flags=flags, helper=helper and dir==''))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds.py')).read())

def write(s):
    d = os.path.join(OUT, s['id']); os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.unlink(os.path.join(d, f))
    t = tempfile.mkdtemp(prefix='mkseed')
    files = {}
    for f, old, new in s['edits']:
        txt = files.get(f) or open('/repo/'+f).read()
        assert txt.count(old) == 1, (s['id'], f, txt.count(old), old)
        files[f] = txt.replace(old, new)
    diff = ''
    for f, txt in files.items():
        for side in 'ab':
            p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copy('/repo/'+f, os.path.join(t, 'a', f))
        open(os.path.join(t, 'b', f), 'w').write(txt)
        r = subprocess.run(['git','diff','--no-index','--src-prefix=','--dst-prefix=','a/'+f,'b/'+f], cwd=t, capture_output=True, text=True)
        diff += r.stdout
    shutil.rmtree(t)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO.replace('@DIR@', s['dir']+('/' if s['dir'] else '')).replace('@FLAGS@', s['flags']))
    os.chmod(d+'/demo.sh', 0o755)
    open(d+'/demo.go.txt','w').write(s['test'].lstrip('\n'))
    if s['helper']: open(d+'/zhelp.go.txt','w').write(HELP.lstrip('\n'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d+'/meta.json','w'), indent=1)

only = sys.argv[1:]
for s in seeds:
    if not only or s['id'] in only: write(s)
print(len(seeds), 'seeds')
