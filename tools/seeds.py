#!/usr/bin/env python3
"""Writes and validates the planted bugs of /verif/seeded.
   seeds.py write [ID...]   regenerate patch/demo/meta and validate each in a scratch copy
   seeds.py detect [ID...]  apply to /repo, run the check of its property, undo
"""
import json, os, re, shutil, subprocess, sys, textwrap
from seeds_data import SEEDS
ROOT='/verif/seeded'
ENV='. /opt/vp/env.sh\n'
def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(['bash','-c',ENV+cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
DEMO='''#!/bin/bash
# demonstration: fails with the planted change, passes without it
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/o.json"
go test -count=1 %(flags)s -overlay "$t/o.json" -run 'TestDemo' ./%(pkg)s
rc=$?
rm -f "$t/o.json"; rmdir "$t"
exit $rc
'''
GENDEMO='''#!/bin/bash
# demonstration: fails with the planted change, passes without it
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
mkdir "$t/zzdemo"
go run . %(flags)s -importPath github.com/GannettDigital/jstransform/zzdemo "$d/root.json" "$t/zzdemo"
rc=$?
if [ $rc = 0 ]; then
  python3 - "$t" "$d" "$PWD" <<'END'
import json, os, sys
t, d, repo = sys.argv[1:]
m = {repo+'/zzdemo/zz_demo_test.go': d+'/demo_test.go'}
for r, _, fs in os.walk(t+'/zzdemo'):
    for f in fs:
        if f.endswith('.go') and not f.endswith('_test.go'):
            m[repo+'/zzdemo'+os.path.join(r, f)[len(t+'/zzdemo'):]] = os.path.join(r, f)
json.dump({'Replace': m}, open(t+'/o.json', 'w'))
END
  go test -c -o "$t/demo" -vet=off -overlay "$t/o.json" ./zzdemo && "$t/demo" -test.run TestDemo
  rc=$?
fi
case "$t" in /tmp/*) rm -rf "$t";; esac
exit $rc
'''
HEAD={
'transform': '''package transform_test

import (
%(imports)s
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"
)

var _ = json.Valid
var _ = fmt.Sprint

func build(t *testing.T, schema, id string, xml bool) (*transform.Transformer, error) {
	t.Helper()
	p := filepath.Join(t.TempDir(), "schema.json")
	if err := os.WriteFile(p, []byte(schema), 0o600); err != nil {
		t.Fatal(err)
	}
	s, err := jsonschema.SchemaFromFile(p, "")
	if err != nil {
		t.Fatal(err)
	}
	if xml {
		return transform.NewXMLTransformer(s, id)
	}
	return transform.NewTransformer(s, id)
}

func must(t *testing.T, schema, id string, xml bool) *transform.Transformer {
	t.Helper()
	tr, err := build(t, schema, id, xml)
	if err != nil {
		t.Fatal(err)
	}
	return tr
}

// want "" expects an error
func expect(t *testing.T, tr *transform.Transformer, in, want string) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic for %%s: %%v", in, r)
		}
	}()
	out, err := tr.TransformNoValidation([]byte(in))
	if want == "" {
		if err == nil {
			t.Errorf("%%s gives %%s, want an error", in, out)
		}
		return
	}
	if err != nil {
		t.Errorf("%%s: %%v", in, err)
	} else if string(out) != want {
		t.Errorf("%%s gives %%s, want %%s", in, out, want)
	}
}
''',
'jsonschema': '''package jsonschema_test

import (
%(imports)s
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/GannettDigital/jstransform/jsonschema"
)

var _ = fmt.Sprint
var _ jsonschema.Instance

func put(t *testing.T, dir string, files map[string]string) {
	t.Helper()
	for n, c := range files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o700)
		if err := os.WriteFile(p, []byte(c), 0o600); err != nil {
			t.Fatal(err)
		}
	}
}
''',
'generate': '''package generate_test

import (
%(imports)s
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"testing"

	"github.com/GannettDigital/jstransform/generate"
)

var _ = fmt.Sprint
var _ generate.BuildArgs

func put(t *testing.T, dir string, files map[string]string) {
	t.Helper()
	for n, c := range files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o700)
		if err := os.WriteFile(p, []byte(c), 0o600); err != nil {
			t.Fatal(err)
		}
	}
}

func read(t *testing.T, p string) string {
	t.Helper()
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

// all generates for the file root.json and returns what is written
func all(t *testing.T, files map[string]string, args generate.BuildArgs) map[string]string {
	t.Helper()
	in, out := t.TempDir(), filepath.Join(t.TempDir(), "pkg")
	os.MkdirAll(out, 0o700)
	put(t, in, files)
	args.SchemaPath = filepath.Join(in, "root.json")
	args.OutputDir = out
	args.ImportPath = "example.com/pkg"
	if err := generate.BuildStructsWithArgs(args); err != nil {
		t.Fatal(err)
	}
	got := map[string]string{}
	filepath.Walk(out, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			rel, _ := filepath.Rel(out, p)
			got[rel] = read(t, p)
		}
		return nil
	})
	return got
}

func has(t *testing.T, text, re string, want bool) {
	t.Helper()
	if regexp.MustCompile(re).MatchString(text) != want {
		t.Errorf("%%s: want %%v in\\n%%s", re, want, text)
	}
}
''',
'gencode': '''package zzdemo

import (
%(imports)s
	"testing"
)
''',
'.': '''package main

import (
%(imports)s
	"testing"
)
''',
}
def stable_fail(cwd_repo):
    # run the stable tests in a copy by bind is impossible: run go test -json there
    b=json.load(open('/opt/vp/BASELINE.json'))
    r=sh('go test -count=1 -json ./... 2>&1',cwd=cwd_repo)
    passed=set()
    for l in r.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'):
            passed.add((e['Package'],e['Test']))
    miss=[]
    names={p.split('/')[-1]+'.'+t for p,t in passed}
    allp={p+'.'+t for p,t in passed}|{p+'/'+t for p,t in passed}|{p+'::'+t for p,t in passed}|{p+' '+t for p,t in passed}
    tests={t for _,t in passed}
    for s in b['stable']:
        if s in allp: continue
        if any(s.endswith(t) for t in ()): continue
        miss.append(s)
    return miss, len(passed)
def write(sid):
    s=SEEDS[sid]; d=f'{ROOT}/{sid}'; os.makedirs(d,exist_ok=True)
    wt=f'/tmp/seedwt_{sid}'
    shutil.rmtree(wt,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',wt])
    try:
        sh('git checkout -q -- .',cwd=wt)
        pkg=s['pkg']
        open(d+'/demo.sh','w').write((GENDEMO if pkg=='gencode' else DEMO)%{'pkg':pkg,'flags':s.get('flags','')})
        for f,c in s.get('files',{}).items(): open(d+'/'+f,'w').write(c)
        os.chmod(d+'/demo.sh',0o755)
        imports=''.join('\t"%s"\n'%i for i in s.get('imports',[])).rstrip('\n')
        body=s.get('head',HEAD[pkg])%{'imports':imports}+'\n'+textwrap.dedent(s['demo']).lstrip('\n')
        open(d+'/demo_test.go','w').write(body)
        sh('gofmt -w demo_test.go',cwd=d)
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        clean=sh(d+'/demo.sh',cwd=wt)
        for f,o,n in s['edits']:
            t=open(f'{wt}/{f}').read()
            if t.count(o)!=1: return f'{sid}: edit matches {t.count(o)} times: {o!r}'
            open(f'{wt}/{f}','w').write(t.replace(o,n))
        sh('gofmt -l . ; gofmt -w '+' '.join({f for f,_,_ in s['edits']}),cwd=wt)
        diff=subprocess.check_output(['git','diff'],cwd=wt,text=True)
        open(d+'/patch.diff','w').write(diff)
        b=sh('go build ./... && go vet ./... 2>&1 | tail -3',cwd=wt)
        if 'error' in b.stdout or sh('go build ./...',cwd=wt).returncode: return f'{sid}: build {b.stdout[-800:]}'
        miss,n=stable_fail(wt)
        bad=sh(d+'/demo.sh',cwd=wt)
        msg=f'{sid} {s["property"]}: clean={clean.returncode} patched={bad.returncode} stable_missing={len(miss)} passed={n}'
        ok = clean.returncode==0 and bad.returncode!=0 and not miss
        if not ok:
            msg+=' FAIL\n'
            if clean.returncode: msg+=clean.stdout[-1500:]
            if bad.returncode==0: msg+=bad.stdout[-500:]
            if miss: msg+=str(miss[:5])
        elif 'cannot' in bad.stdout or 'build failed' in bad.stdout: msg+=' BUILD?'+bad.stdout[-600:]
        return msg
    finally:
        shutil.rmtree(wt,ignore_errors=True)
def detect(sid):
    import fcntl, tempfile, time
    s=SEEDS[sid]; d=f'{ROOT}/{sid}'
    t=tempfile.mkdtemp(prefix='seed')
    try:
        r=sh(f'git clone -q /repo {t}/repo && git -C {t}/repo apply {d}/patch.diff')
        if r.returncode: return f'{sid}: does not apply {r.stdout}'
        t0=time.time()
        c=sh(f'/verif/bin/verif -n -prop {s["property"]} -tier {os.environ.get("T","quick")} -repo {t}/repo',cwd='/verif')
        caught=c.returncode==1 and f'VIOLATION property={s["property"]} ' in c.stdout
        if os.environ.get('T','quick')=='quick':
            f='/verif/tools/detect.json'
            with open('/tmp/detect.lock','w') as l:
                fcntl.flock(l,fcntl.LOCK_EX)
                j=json.load(open(f)) if os.path.exists(f) else {}
                j[sid]=dict(property=s['property'],needs=s['needs'],caught=caught)
                json.dump(dict(sorted(j.items())),open(f,'w'),indent=0)
        v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        return f'{sid} {s["property"]}: rc={c.returncode} {time.time()-t0:.0f}s {v[:2]} '+('CAUGHT' if caught else 'MISSED '+c.stdout[-600:])
    finally:
        shutil.rmtree(t)
if __name__=='__main__':
    ids=sys.argv[2:] or sorted(SEEDS)
    if sys.argv[1]=='detect':
        from concurrent.futures import ThreadPoolExecutor
        print(sh('./setup',cwd='/verif').stdout,end='')
        with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
            for r in ex.map(detect,ids): print(r,flush=True)
    else:
        for i in ids: print(write(i),flush=True)
